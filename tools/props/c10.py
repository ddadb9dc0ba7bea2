"""C10: settings of folders (spec/Direnv.tla)."""
import os
from vt.core import Check
from vt.tlc import tla

DIRS = ["{B}", "{B}/w", "{B}/w/p", "{B}/w/p/q", "{B}/w/px", "{B}/r", "{B}/w/s t"]
WHERE = ["{B}/b1", "{B}/b2", "{B}/w/p/b3", "{B}/w/b4", "{B}/b0"]
KEYS = ["PATH", "VDA", "VDB", "VDC"]
PATH0 = ["{B}/b0", "/usr/bin", "/bin"]


def fn(d):
    return "(" + " @@ ".join("%s :> %s" % (tla(k), tla(v)) for k, v in d.items()) + ")"


def inside(d, r):
    return d == r or d.startswith(r + "/")


class Prop(Check):
    pid = "C10"
    spec = "Direnv"
    module = "words"
    walk_len = 30
    assumptions = ["values of settings are plain text (.env and .envrc are read as text, nothing is expanded in them)",
                   "folders are named without symbolic links"]

    def consts(self, acts):
        roots = DIRS + ["{B}/none"]
        return dict(Acts=acts, Keys=tla(KEYS), Vars0=fn(dict(PATH=PATH0, VDA=["a0"], VDB=[], VDC=["c 0"])),
                    Inside="{" + ", ".join(tla([d, r]) for d in DIRS for r in roots if inside(d, r)) + "}",
                    Depth=fn({r: r.count("/") for r in roots}), Dirs=tla(set(DIRS)), Home='"{B}"', Where=tla(set(WHERE)))

    def configs(self):
        def acts(writes, allow, cds, setx, unlinks):
            t = "({[op |-> \"cd\", d |-> d] : d \\in %s} \\cup {[op |-> \"which\"]}" % tla(set(cds))
            for d in allow:
                t += " \\cup (IF %s \\in ToSet(core[3]) THEN {} ELSE {[op |-> \"allow\", d |-> %s]})" % (tla(d), tla(d))
            t += " \\cup {%s}" % ", ".join(tla(dict(op="write", d=d, f=f, ls=ls)) for d, f, ls in writes)
            t += " \\cup {%s}" % ", ".join(tla(dict(op="unlink", d=d, f=f)) for d, f in unlinks)
            t += " \\cup {%s})" % ", ".join(tla(dict(op="setx", key=k, v=[v])) for k, v in setx)
            return t
        S = lambda k, v: dict(k="set", key=k, v=[v] if isinstance(v, str) else v)
        P = lambda v: dict(k="path", v=v)
        J = dict(k="junk")
        a = acts([("{B}/w", ".envrc", [S("VDA", "1"), P("{B}/b1")]), ("{B}/w/p", ".env", [S("VDA", "2"), S("VDB", "x y")]),
                  ("{B}/w/p", ".envrc", [P("{B}/b2"), J])],
                 ["{B}/w", "{B}/w/p"], ["{B}", "{B}/w", "{B}/w/p", "{B}/w/px", "{B}/none"], [("VDA", "u")], [("{B}/w/p", ".env")])
        b = acts([("{B}/w", ".env", [S("VDB", "1"), S("VDB", "2"), J]), ("{B}/w/p/q", ".envrc", [S("PATH", ["{B}/b1", "/bin"]), P("{B}/b2")]),
                  ("{B}/w/p", ".envrc", [P("{B}/w/p/b3"), S("VDC", "")])],
                 ["{B}/w/p/q", "{B}/w/p", "{B}/w"], ["{B}/r", "{B}/w/p", "{B}/w/p/q"], [], [])
        return [dict(consts=self.consts(x), invariants=["Around"], properties=["Clean", "Outside"], constraint=None,
                     max_steps=7000 if self.quick else 40000) for x in (a, b)]

    def trace_consts(self):
        return self.consts("{}")

    def run_cfg(self, init):
        return dict(dirs=[d[4:] for d in DIRS + WHERE + ["{B}/s"] if d != "{B}"], cwd="", files=[],
                    stubs=["s/ca"] + [d[4:] + "/cb" for d in WHERE], unset=["VDB"],
                    env=[["PATH", ":".join(PATH0)], ["VDA", "a0"], ["VDC", "c 0"]], keys=KEYS)

    def new_ctx(self, rng):
        return dict(rng=rng, cwd="{B}", ops=[])

    def concretize(self, a, c):
        r = c["rng"]
        c["ops"].append(a)
        if a["op"] == "allow":
            return dict(op="lisp", line='(allow-direnv "%s")' % (a["d"] + r.choice(["", "/"])))
        if a["op"] == "setx":
            v = ":".join(a["v"])
            if r.random() < 0.4:
                return dict(op="lisp", line='(setenv "%s" "%s")' % (a["key"], v))
            return dict(op="line", line=r.choice(["set -x %s '%s'", "export %s='%s'"]) % (a["key"], v))
        if a["op"] == "unlink":
            return dict(op="put", d=a["d"], n=a["f"], bytes=None)
        if a["op"] == "write":
            return dict(op="put", d=a["d"], n=a["f"], bytes=self.render(a, r))
        if a["op"] == "which":
            return dict(op="line", line="cb")
        d = a["d"]
        t = d
        if r.random() < 0.5:
            t = os.path.relpath(d, c["cwd"])
        if d in DIRS:
            c["cwd"] = d
        t = "cd '%s'" % (t + r.choice(["", "", "/"]))
        return dict(op="line", line=t + " && {B}/s/ca ok || {B}/s/ca no")

    def render(self, a, r):
        ls = []
        for l in a["ls"]:
            if l["k"] == "junk":
                ls.append(r.choice(["", "# note", "# A=b", "WORD", "=x", "#"] if a["f"] == ".env" else
                                   ["", "# export VDA=9", "export", "export VDA", "PATH_ADD", "use flake", "layout  python", "dotenv .x=1", "é漢"]))
                continue
            if l["k"] == "path":
                p = l["v"]
                if inside(p, a["d"]) and r.random() < 0.6:
                    p = os.path.relpath(p, a["d"])
                ls.append(r.choice(["PATH_add ", "PATH_add  ", "path_add "]) + p)
                continue
            v = ":".join(l["v"])
            k = r.choice([l["key"], l["key"], l["key"].lower()])
            if a["f"] == ".env":
                ls.append(r.choice(["%s=%s", "%s = %s", "  %s=%s"]) % (k, v))
            else:
                q = r.choice(['"', "'"] + ([""] if v == v.strip() and v[:1] not in "\"'" else []))
                ls.append(r.choice(["export ", "  export ", "export  "]) + k + "=" + q + v + q)
        return "\n".join(ls) + r.choice(["", "\n"])

    def abstract(self, o, c):
        a = c["ops"].pop(0)
        if a["op"] in ("allow", "write", "unlink", "setx"):
            return dict(rc=o["rc"])
        if a["op"] == "which":
            if not o["runs"]:
                return dict(rc=0, **{"from": "<none>"})
            return dict(rc=0 if len(o["runs"]) == 1 else 9, **{"from": o["runs"][0]["from"]})
        if len(o["runs"]) != 1:
            return dict(rc=9, env=[], cwd=o["err"])
        x = o["runs"][0]
        env = x["env"]
        env = [env[0].split(":")] + [[] if e == "<none>" else [e] for e in env[1:]]
        return dict(rc=0 if x["args"] == ["ok"] else 1, env=env, cwd=x["cwd"])

    def random_histories(self):
        rng = self.rng
        out = []
        val = lambda: rng.choice(["1", "x y", "日本", "a=b", "$HOME", "~", "50%", "a'b", "", "q;r", "#no", '"q"', "'q'", '"', "'q", "{B}/k", 'x"y', "\\n"])
        for _ in range(150 if self.quick else 1200):
            acts = []

            def write():
                d, f = rng.choice(DIRS), rng.choice([".env", ".envrc", ".envrc"])
                ls = []
                for _ in range(rng.choice([0, 1, 2, 3, 5])):
                    x = rng.random()
                    if x < 0.55:
                        ls.append(dict(k="set", key=rng.choice(KEYS[1:]), v=[val()]))
                    elif x < 0.6:
                        ls.append(dict(k="set", key="PATH", v=[rng.choice(WHERE), "/usr/bin"]))
                    elif x < 0.8 and f == ".envrc":
                        ls.append(dict(k="path", v=rng.choice(WHERE)))
                    else:
                        ls.append(dict(k="junk"))
                acts.append(dict(op="write", d=d, f=f, ls=ls))
            for _ in range(rng.randint(1, 4)):
                write()
            for _ in range(rng.randint(1, 3)):
                acts.append(dict(op="allow", d=rng.choice(DIRS + ["{B}/none"])))
            for _ in range(20):
                x = rng.random()
                if x < 0.55:
                    acts.append(dict(op="cd", d=rng.choice(DIRS + DIRS + ["{B}/none"])))
                elif x < 0.7:
                    acts.append(dict(op="which"))
                elif x < 0.8:
                    write()
                elif x < 0.84:
                    acts.append(dict(op="unlink", d=rng.choice(DIRS), f=rng.choice([".env", ".envrc"])))
                elif x < 0.9:
                    acts.append(dict(op="allow", d=rng.choice(DIRS)))
                elif x < 0.98:
                    acts.append(dict(op="setx", key=rng.choice(KEYS[1:]), v=[rng.choice(["1", "u", "日本", "a=b"])]))
                else:
                    acts.append(dict(op="setx", key="PATH", v=rng.sample(WHERE, 2)))
            out.append(dict(cfg=self.run_cfg(None), acts=acts))
        return out
