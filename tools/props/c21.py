"""C21: hooks of the configuration (spec/Hooks.tla)."""
import json, os, re
from vt.core import Check
from vt.e2e import Box, pmap
from vt.tlc import tla

DIRS = dict(t="", p="p", sub="p/sub", inn="p/inn", o="o")
PROJ = dict(t="", p="P", sub="P", inn="Q", o="")
KINDS = dict(pre="pre-exec-hooks", post="post-exec-hooks", cd="on-chdir-hooks", nf="command-not-found-hooks",
             proj="on-project-switch-hooks")
PARAMS = dict(pre="c", post="c e", cd="", nf="c", proj="c")
JUNK = ["", "", " x", " \"a b\"", " 'x\"y'", " a\\ b", " é漢", " \"q\\\\\"", " '(print 1)'", " 'a;b'", " \"&&\"", " ')'", "  two  blanks",
        " \"\\\"\"", " '\\n'", " -x=1", " \"it's\"", " %s", " '🐕'", " '\"'", " \"'\"", " 'a|b'", " '@@pre h0'", " '\t'"]


class Prop(Check):
    pid = "C21"
    spec = "Hooks"
    walk_len = 12
    assumptions = ["hooks end; hooks of one kind may be called in any order"]
    IDS = ["h%d" % i for i in range(6)]

    def consts(self, acts, inits):
        return dict(Acts=acts, Inits=inits, Top='"t"', Projects=tla(PROJ), Ids=tla(self.IDS))

    def configs(self):
        J = lambda k, i, st=0, to="t", sep=";": tla(dict(k=k, id=i, st=st, to=to, sep=sep))
        inits = []
        for pre, post, cd, nf, proj in (((1, 1), (1,), (1,), (1,), (1,)), ((1, 0), (0, 1), (), (0, 1), (0, 1)), ((), (1, 1), (0, 1), (), ())):
            inits.append("[%s]" % ", ".join("%s |-> {%s}" % (k, ", ".join('[id |-> "h%d", ok |-> %s]' % (i, "TRUE" if o else "FALSE")
                                                                          for i, o in enumerate(v)))
                                            for k, v in dict(pre=pre, post=post, cd=cd, nf=nf, proj=proj).items()))
        first = [J(k, "j1", s, to, sep) for k, s, to in
                 [("run", 0, "t"), ("run", 3, "t"), ("quiet", 1, "t"), ("cap", 0, "t"), ("cap", 2, "t"), ("qcap", 1, "t"), ("struct", 0, "t"), ("struct", 4, "t"), ("sbad", 0, "t"),
                  ("squiet", 1, "t"), ("pipe", 3, "t"), ("cd", 0, "p"), ("cd", 0, "inn"), ("cd", 0, "t"), ("cd", 1, "t"), ("pm", 0, "p"), ("pm", 1, "p"),
                  ("nolaunch", 0, "t"), ("unknown", 0, "t"), ("bg", 0, "t")]
                 for sep in ([";"] if k == "bg" else [";", "&&", "||"])]
        second = [J(k, "j2", s, to) for k, s, to in [("run", 0, "t"), ("quiet", 1, "t"), ("cap", 0, "t"), ("cd", 0, "sub"), ("cd", 0, "o"),
                                                     ("unknown", 0, "t"), ("bg", 0, "t"), ("squiet", 1, "t")]]
        acts = "[op : {\"line\"}, jobs : {<<a, b>> : a \\in {%s}, b \\in {%s}}]" % (", ".join(first), ", ".join(second))
        return [dict(consts=self.consts(acts, "{%s}" % ", ".join(inits)), invariants=["Around", "All", "Unknown"],
                     properties=["Moves"], max_steps=3200 if self.quick else None)]

    def trace_consts(self):
        return self.consts("{}", "{[pre |-> {}, post |-> {}, cd |-> {}, nf |-> {}, proj |-> {}]}")

    def run_cfg(self, init):
        return dict(hk=init[0])

    # ---- the configuration
    def hook(self, kind, h, rng):
        p = PARAMS[kind]
        say = '(print (list "@@%s" "%s" %s))' % (kind, h["id"], p)
        if not h["ok"]:
            return rng.choice(["(lambda (%s) (undefined-function 1) %s)" % (p, say), "'no-such-function",
                               "(lambda (%s) (car 5) %s)" % (p, say)])
        x = rng.random()
        if x < 0.35:
            return "(lambda (%s) %s)" % (p, say)
        if x < 0.55:
            return "(lambda (%s) %s (undefined-function 1))" % (p, say)
        n = "my-%s-%s" % (kind, h["id"])
        return ("(defun %s (%s) %s)" % (n, p, say), rng.choice(["'" + n, n]))

    def config(self, hk, rng):
        out = []
        for k, hs in sorted(hk.items()):
            hs = list(hs)
            rng.shuffle(hs)
            calls = []
            for h in hs:
                x = self.hook(k, h, rng)
                if isinstance(x, tuple):
                    out.append(x[0])
                    x = x[1]
                calls.append(x)
            if k == "proj":
                out.append("(define *%s* (list %s))" % (KINDS[k], " ".join(calls)))
            else:
                out += ["(add-hook '%s %s)" % (KINDS[k], c) for c in calls]
        return "\n".join(out) + "\n"

    def text(self, j, n, rng, base):
        """(text of the job, key its events carry)"""
        k = j["k"]
        junk = rng.choice(JUNK)
        nm = "r" if k in ("run", "cap", "struct", "pipe", "nolaunch") else "q"
        st = j["st"]
        core = "%s %d %d%s" % (nm, n, st, junk)
        if k in ("run", "quiet"):
            t = core
        elif k in ("cap", "qcap"):
            t = core + " |>"
        elif k in ("struct", "squiet"):
            t = core + " |: (car (list $_))"
        elif k == "sbad":
            t = core + " |: (undefined-function $_)"
        elif k == "pipe":
            t = core + rng.choice([" | pass", "|pass", " |  pass"])
        elif k == "nolaunch":
            t = core + " > " + base + "/none/x%d" % n
        elif k == "unknown":
            return "nosuch%d%s" % (n, junk), "nosuch%d" % n
        elif k == "bg":
            t = "slow %d%s &" % (n, junk)
        elif k == "cd":
            d = base + "/" + DIRS[j["to"]] if st == 0 else base + "/none%d" % n
            # a command's text tells it from the others: blanks make it so
            t = "cd" + " " * (1 + n) + rng.choice(["%s", "'%s'", "\"%s\""]) % d
            if st == 0 and rng.random() < 0.2:  # the folder alone
                t = d.replace("/base", "/base" + "/." * n)
        else:
            t = "pm work" + " " * (1 + n) + (PROJ[j["to"]] if st == 0 else "Z")
        return t, t

    def run1(self, r):
        rng = r["rng"]
        b = Box(self.work)
        base = b.work + "/base"
        for d in DIRS.values():
            os.makedirs(base + "/" + d, exist_ok=True)
        bindir = b.dir + "/bin"
        os.makedirs(bindir)
        for n, s in dict(r='echo "@@run $1 $(pwd)"; exit $2', q="exit $2", slow="sleep 0.02", m='echo "@@line $1"').items():
            with open(bindir + "/" + n, "w") as f:
                f.write("#!/bin/sh\n" + s + "\n")
            os.chmod(bindir + "/" + n, 0o755)
        os.symlink("/bin/cat", bindir + "/pass")
        hk = r["acts"][0]["hk"] if r["acts"][0]["op"] == "begin" else r["cfg"]["hk"]
        os.makedirs(b.dir + "/config/dsh", exist_ok=True)
        with open(b.dir + "/config/dsh/config.lisp", "w") as f:
            f.write(self.config(hk, rng))
        os.makedirs(b.dir + "/home/.config/dsh", exist_ok=True)
        with open(b.dir + "/home/.config/dsh/projects.json", "w") as f:
            json.dump([dict(name=PROJ[d], path=os.path.realpath(base + "/" + DIRS[d]), last_accessed=rng.choice([0, 5, 9]), created_at=0,
                            description=None) for d in rng.choice([("p", "inn"), ("inn", "p")])], f)
        # whatever the shell does by itself when it starts comes before the first mark
        lines, keys, n = ["m 999"], {}, 0
        for i, a in enumerate(r["acts"]):
            if a["op"] != "begin":
                line = ""
                for j in a["jobs"]:
                    n += 1
                    t, key = self.text(j, n, rng, base)
                    keys[key] = j["id"]
                    keys["#%d" % n] = j["id"]
                    sep = {";": rng.choice([";", "; ", " ; "]), "&&": rng.choice([" && ", "&&"]), "||": rng.choice([" || ", "||"])}[j["sep"]]
                    line += t + (" " if j["k"] == "bg" else sep)
                if a["jobs"][-1]["k"] != "bg":
                    line = re.sub(r" ?(;|&&|\|\|) ?$", "", line)
                lines.append(rng.choice(["", "", " "]) + line)
            lines.append("m %d" % i)
        x = b.run([self.bin["dsh"]], cwd=base, env=dict(PATH=bindir + ":" + b.env["PATH"]), stdin=("\n".join(lines) + "\n").encode())
        out = x["out"].decode("utf8", "replace").replace("\r", "")
        res, cur = [], []
        pwds = {os.path.realpath(base + "/" + v): k for k, v in DIRS.items()}
        for l in out.split("\n"):
            m = re.match(r"@@line (\d+)$", l)
            if m:
                if m.group(1) == "999":
                    cur = []
                    continue
                # the hooks around `m' itself are not asked for
                res.append([e for e in cur if not (e["ev"] in ("pre", "post") and re.fullmatch(r"m \d+", e["text"]))])
                cur = []
                continue
            m = re.match(r"@@run (\d+) (.*)$", l)
            if m:
                cur.append(dict(ev="run", who=[], text=keys.get("#" + m.group(1), "?"), st=0, at=pwds.get(m.group(2), m.group(2))))
                continue
            m = re.match(r"\(@@(pre|nf|proj) (h\d) (.*)\)$", l)
            st = 0
            if m:
                kind, who, text = m.groups()
            else:
                m = re.match(r"\(@@post (h\d) (.*) (-?\d+)\)$", l)
                if m:
                    kind, who, text, st = "post", m.group(1), m.group(2), int(m.group(3))
                else:
                    m = re.match(r"\(@@cd (h\d)\)$", l)
                    if not m:
                        continue
                    kind, who, text = "cd", m.group(1), ""
            if kind != "proj" and kind != "cd":
                text = keys.get(text, text)
            last = cur[-1] if cur else None
            if last and last["ev"] == kind and last["text"] == text and last["st"] == st and who not in last["who"]:
                last["who"] = sorted(last["who"] + [who])
            else:
                cur.append(dict(ev=kind, who=[who], text=text, st=st, at=""))
        if x["timeout"] or b"panicked" in x["err"]:
            res.append(dict(died="hangs" if x["timeout"] else x["err"].decode("utf8", "replace")[-300:]))
        elif len(res) < len(r["acts"]):
            res.append(dict(died="no answer to a line: " + lines[-1] + x["err"].decode("utf8", "replace")[-300:]))
        b.done()
        return [o if isinstance(o, dict) else o for o in res[:len(r["acts"])]]

    def execute(self, runs):
        import random
        for r in runs:
            r["rng"] = random.Random(self.rng.random())
        res = pmap(self.run1, runs, 12)
        for r in runs:
            del r["rng"]
        return res

    def corrupt(self, o):
        return None if not o else o[:-1]

    # ---- random histories
    def random_histories(self):
        rng = self.rng
        out = []
        for _ in range(160 if self.quick else 1500):
            hk = {k: [dict(id=i, ok=rng.random() < 0.75) for i in rng.sample(self.IDS, rng.choice([0, 1, 1, 2, 3]))] for k in KINDS}
            acts = [dict(op="begin", hk=hk)]
            n = 0
            for _ in range(rng.randint(4, 9)):
                jobs = []
                for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
                    n += 1
                    k = rng.choice(["run"] * 5 + ["quiet"] * 2 + ["cap", "qcap", "struct", "sbad", "squiet", "pipe", "cd", "cd", "cd", "pm", "nolaunch", "bg", "bg"] +
                                   (["unknown"] if rng.random() < 0.4 else []))
                    st = 0 if k in ("bg", "unknown", "nolaunch", "sbad") else rng.choice([0, 0, 0, 1, 2, 126, 255]) if k not in ("cd", "pm") \
                        else rng.choice([0, 0, 0, 0, 1])
                    if k == "squiet" and st == 0:
                        st = 1
                    jobs.append(dict(k=k, id="j%d" % n, st=st, to=rng.choice(["p", "inn"] if k == "pm" else list(DIRS)),
                                     sep=";" if k == "bg" else rng.choice([";", "&&", "||"])))
                acts.append(dict(op="line", jobs=jobs))
            out.append(dict(cfg=dict(hk=hk), acts=acts))
        return out
