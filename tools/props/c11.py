"""C11: variables, exports and command lookup (spec/Env.tla)."""
from vt.core import Check
from vt.tlc import tla

KEYS = ["KA", "KB", "KS", "PATH", "PWD", "TERM", "OLDPWD"]
SYSP = "/usr/bin:/bin"
SYS0 = [("KS", "s0"), ("PATH", "{B}/d1:{B}/d2:" + SYSP), ("TERM", "dumb"), ("HOME", "{B}/home")]
DIRS = ["{B}/d1", "{B}/d2", "{B}/d3", "{B}/late"]
CDS = ["{B}/home", "{B}/w", "", "-", "{B}/none"]


def q(rng, v):
    if v and all(c.isalnum() or c in "/:.{}" for c in v) and rng.random() < 0.5:
        return v
    if "'" in v:
        return '"' + v + '"'
    return "'" + v + "'" if set(v) & set('"$\\`') or rng.random() < 0.5 else '"' + v + '"'


def lq(v):
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Prop(Check):
    pid = "C11"
    spec = "Env"
    module = "words"
    walk_len = 30
    assumptions = ["commands are symbolic links to a stub; directories of PATH have no colon in their names"]

    def consts(self, acts="{}"):
        return dict(Acts=acts, Keys=tla(KEYS), Home='"{B}/home"',
                    Sys0="{%s}" % ", ".join("<<%s, %s>>" % (tla(k), tla(v)) for k, v in SYS0))

    def trace_consts(self):
        return self.consts()

    def run_cfg(self, init=None):
        return dict(dirs=["home/sub", "w/sub", "d1", "d2", "d3"], cwd="home", files=[], stubs=[], unset=["PWD", "OLDPWD", "KA", "KB"],
                    env=[list(e) for e in SYS0], keys=KEYS)

    def configs(self):
        ins = [("{B}/d1", "ca"), ("{B}/late", "ca")]
        a = ['[op |-> "%s", k |-> "%s", v |-> "%s"]' % (o, k, v) for o in ("set", "setx") for k in ("KA", "KS") for v in ("1", "2")]
        a += ['[op |-> "export", q |-> <<[k |-> "%s", v |-> "%s"]>>]' % (k, v) for k in ("KA", "KS") for v in ("1", "2", "<none>")]
        a += ['[op |-> "run", n |-> "ca", ks |-> <<"KA", "KS">>]']
        b = ['[op |-> "mk", d |-> "%s", n |-> "%s", x |-> %s]' % (d, n, x) for d, n in ins for x in ("TRUE", "FALSE")]
        b += ['[op |-> "rm", d |-> "%s", n |-> "%s"]' % i for i in ins]
        b += ['[op |-> "run", n |-> "ca", ks |-> <<"PATH">>]', '[op |-> "at", d |-> "{B}/d1", n |-> "ca", rel |-> FALSE]']
        p = ["{B}/d2:" + SYSP, "{B}/late:{B}/d1:" + SYSP]
        b += ['[op |-> "%s", k |-> "PATH", v |-> "%s"]' % (o, v) for o in ("set", "setx") for v in p[:1]]
        b += ['[op |-> "export", q |-> <<[k |-> "PATH", v |-> "%s"]>>]' % v for v in (p[1], "<none>")]
        b += ['[op |-> "addpath", d |-> "{B}/d2"]']
        # the third graph: directories
        c = ['[op |-> "cd", d |-> "%s"]' % d for d in CDS]
        c += ['[op |-> "set", k |-> "PWD", v |-> "1"]', '[op |-> "export", q |-> <<[k |-> "OLDPWD", v |-> "<none>"]>>]', '[op |-> "export", q |-> <<[k |-> "PWD", v |-> "<none>"]>>]',
              '[op |-> "mk", d |-> "{B}/home/sub", n |-> "cb", x |-> TRUE]', '[op |-> "at", d |-> "sub", n |-> "cb", rel |-> TRUE]',
              '[op |-> "mk", d |-> "{B}/d1", n |-> "ca", x |-> TRUE]', '[op |-> "run", n |-> "ca", ks |-> <<"PWD", "OLDPWD">>]']
        wrap = lambda x: "{%s}" % ",\n ".join(x)
        props = ["Private", "Exported", "SetXSeen", "ExportKeeps", "Added", "Back", "CdFail"]
        one = "{} /\\ c # <<>>"
        return [dict(consts=self.consts("IF core[4] = {} THEN {[op |-> \"mk\", d |-> \"{B}/d1\", n |-> \"ca\", x |-> TRUE]} ELSE " + wrap(a)), properties=props,
                     max_steps=5000),
                dict(consts=self.consts("IF Len(Split(Child(core[1], core[2], core[3], \"PATH\"))) > 5 THEN {} ELSE " + wrap(b)), properties=props,
                     max_steps=5000),
                dict(consts=self.consts(wrap(c)), properties=props, max_steps=5000)]

    def conc(self, a):
        rng, op = self.rng, a["op"]
        line = lambda t: dict(op="line", line=t)
        if op in ("mk", "rm"):
            return a
        if op == "set":
            x = rng.random()
            if x < 0.5:
                return line("set %s %s" % (a["k"], q(rng, a["v"])))
            if x < 0.75 and a["k"] not in ("PATH",):
                return dict(op="lisp", line="(vset %s %s)" % (lq(a["k"]), lq(a["v"])))
            return line("/usr/bin/printf %%s %s | read %s" % (q(rng, a["v"]), a["k"]))
        if op == "setx":
            if rng.random() < 0.5 and a["k"] not in ("PATH",):
                return dict(op="lisp", line="(setenv %s %s)" % (lq(a["k"]), lq(a["v"])))
            return line("set %s %s %s" % (rng.choice(["-x", "--export"]), a["k"], q(rng, a["v"])))
        if op == "export":
            ws = [e["k"] if e["v"] == "<none>" else rng.choice(["%s=%s" % (e["k"], q(rng, e["v"])), "'%s=%s'" % (e["k"], e["v"])
                  if "'" not in e["v"] else "%s=%s" % (e["k"], q(rng, e["v"]))]) for e in a["q"]]
            return line("export " + " ".join(ws))
        if op == "addpath":
            return dict(op="lisp", line="(add_path %s)" % lq(a["d"])) if rng.random() < 0.5 else line("add_path " + a["d"])
        if op == "cd":
            return line("cd " + a["d"])
        if op == "at":
            return line((rng.choice(["./", ""]) if a["rel"] else "") + a["d"] + "/" + a["n"])
        return line(a["n"] + "".join(" " + rng.choice(["$%s", '"$%s"']) % k for k in a["ks"]))

    def execute(self, runs):
        res = self.run_harness([dict(cfg=r["cfg"], acts=[self.conc(a) for a in r["acts"]]) for r in runs])
        for r, obs in zip(runs, res):
            for i, (a, o) in enumerate(zip(r["acts"], obs)):
                if "rc" not in o:
                    continue
                rc = min(o["rc"], 1)
                if a["op"] not in ("run", "at"):
                    obs[i] = dict(rc=rc) if not o.get("runs") else o
                    continue
                if len(o["runs"]) > 1 or (o["runs"] and (o["runs"][0]["dup"] or rc)):
                    continue
                e = o["runs"][0] if o["runs"] else {"from": "<none>", "args": [], "env": [], "cwd": ""}
                obs[i] = dict(rc=rc, cwd=e["cwd"], **{"from": e["from"]})
                if a["op"] == "run":
                    obs[i].update(args=e["args"], env=e["env"])
        return res

    def random_histories(self):
        rng, out = self.rng, []
        vals = ["1", "2", "a b", "x=y", "", "*", "$KB", "é", "a'b", 'a"b', "~", "a\\b", "{a,b}", "a;b", "|", "# c"]

        def val(k):
            if k == "PATH":
                return ":".join(rng.sample(DIRS, rng.randint(0, 3)) + [SYSP])
            return rng.choice(["", "xt", "dumb"]) if k == "TERM" else rng.choice(vals)
        for _ in range(200 if self.quick else 1000):
            acts = []
            for _ in range(30):
                x = rng.random()
                k = rng.choice(["KA", "KA", "KB", "KS", "PATH", "TERM", "OLDPWD", "PWD"])
                if x < 0.12:
                    acts.append(dict(op="set", k=k, v=val(k) if k[-3:] != "PWD" else rng.choice(DIRS[:3])))
                elif x < 0.24:
                    acts.append(dict(op="setx", k=k, v=val(k) if k[-3:] != "PWD" else rng.choice(DIRS[:3])))
                elif x < 0.38:
                    ks = [rng.choice(["KA", "KA", "KB", "KS", "PATH", "TERM", "OLDPWD", "PWD"]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                    acts.append(dict(op="export", q=[dict(k=k, v="<none>" if rng.random() < 0.45 or k[-3:] == "PWD" else val(k)) for k in ks]))
                elif x < 0.42:
                    acts.append(dict(op="addpath", d=rng.choice(DIRS)))
                elif x < 0.56:
                    acts.append(dict(op="mk", d=rng.choice(DIRS), n=rng.choice(["ca", "cb"]), x=rng.random() < 0.8))
                elif x < 0.61:
                    acts.append(dict(op="rm", d=rng.choice(DIRS), n=rng.choice(["ca", "cb"])))
                elif x < 0.68:
                    acts.append(dict(op="cd", d=rng.choice(CDS)))
                elif x < 0.74:
                    rel = rng.random() < 0.5
                    d = rng.choice(["{B}/home/sub", "{B}/w/sub"])
                    acts.append(dict(op="mk", d=d, n="ca", x=True))
                    acts.append(dict(op="at", d="sub" if rel else rng.choice(DIRS), n="ca", rel=rel))
                else:
                    acts.append(dict(op="run", n=rng.choice(["ca", "cb"]), ks=rng.sample(KEYS[:6], rng.randint(0, 3))))
            out.append(dict(cfg=self.run_cfg(), acts=acts[:34]))
        return out
