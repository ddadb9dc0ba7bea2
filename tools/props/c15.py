"""C15: dmv renames many files at once (spec/Rename.tla)."""
import os, re
from vt.core import Check
from vt.e2e import Box, pmap
from vt.tlc import tla as tlaseq

CWD = [list("w")]


def q(t):
    return "'" + t + "'"


def tok(k, cs="", g=0):
    return dict(k=k, cs=list(cs), g=g)



def render_pat(a):
    out, g = "", 0
    done = 0
    for i, t in enumerate(a["pat"]):
        if t["g"] != g:
            if g:
                out += ")"
            g = t["g"]
            if g:
                while done + 1 < g:
                    out += "()"
                    done += 1
                out += "("
                done = g
        out += {"ch": "".join(t["cs"]), "any": "?", "star": "*", "set": "[" + "".join(t["cs"]) + "]"}[t["k"]]
    if g:
        out += ")"
    return ("**/" if a["rec"] else "") + out + "()" * (a["ng"] - done)


class Prop(Check):
    pid = "C15"
    spec = "Rename"
    walk_len = 6
    assumptions = ["names are valid UTF-8; folders are never matched themselves; no other process changes the folder"]

    FILES = [["w", "ab"], ["w", "b"], ["w", "a.b"], ["w", "D", "ab"], ["w", "D", "b"], ["x"]]

    def consts(self, acts, inits, dirs):
        P = lambda p: [list(n) for n in p]
        return dict(Acts=acts, Inits="{" + ", ".join(tlaseq([P(p) for p in i]) for i in inits) + "}",
                    Dirs0="{" + ", ".join(tlaseq(P(d)) for d in dirs) + "}", Cwd=tlaseq(CWD), Depth="2" if self.quick else "3")

    DIRS = [["w"], ["w", "D"], ["w", "D", "E"]]

    def configs(self):
        T = tlaseq
        pats = [([tok("star", "", 1), tok("ch", "b")], 1), ([tok("star"), tok("ch", "b"), tok("star")], 0),
                ([tok("any", "", 1), tok("star", "", 2), tok("set", "ab")], 2), ([tok("set", "ab", 1), tok("any", "", 2)], 2)]
        reps = ["$2$1b", "D/$0", "../$0", "$1", "b"]
        acts = "IF \\E i \\in DOMAIN core[1] : core[1][i] # <<>> /\\ Len(core[1][i][Len(core[1][i])]) > 3 THEN {} ELSE " \
            "{[op |-> \"dmv\", rec |-> r, pat |-> p[1], ng |-> p[2], rep |-> s, force |-> f, dry |-> d] : " \
            "r \\in BOOLEAN, p \\in {%s}, s \\in {%s}, f \\in BOOLEAN, d \\in BOOLEAN}" % (
                ", ".join("<<%s, %d>>" % (T(p), n) for p, n in pats), ", ".join(T(list(r)) for r in reps))
        return [dict(consts=self.consts(acts, [self.FILES], self.DIRS), invariants=["Apart"], properties=["Kept", "Whole"],
                     constraint="Short", max_steps=1500 if self.quick else 15000)]

    def trace_consts(self):
        return self.consts("{}", [self.FILES], self.DIRS)

    def run_cfg(self, init):
        return dict(files=[["".join(n) for n in p] for p in init[0]])

    # ---- the real command
    def run1(self, r):
        b = Box(self.work)
        base = b.work + "/base"
        files = r["cfg"]["files"]
        for d in self.DIRS:
            os.makedirs("/".join([base] + d), exist_ok=True)
        for i, f in enumerate(files):
            p = "/".join([base] + f)
            if i == 2:
                os.symlink("none-%d" % i, p)
            else:
                open(p, "w").write("file %d" % i)
        out = []
        plan0 = [[] for _ in files]
        for a in r["acts"]:
            if a["op"] == "begin":
                out.append(dict(rc=0, at=a["at"], nd=len(self.DIRS), plan=plan0))
                continue
            line = "dmv %s%s%s %s" % ("-n " if a["dry"] else "", "-f " if a["force"] else "", q(render_pat(a)), q("".join(a["rep"])))
            x = b.run([self.bin["dsh"], "-c", line], cwd=base + "/w")
            at, nd, plan = [[] for _ in files], 0, [[] for _ in files]
            for dp, dn, fn in os.walk(base):
                nd += len(dn)
                for n in fn + [d for d in dn if os.path.islink(os.path.join(dp, d))]:
                    p = os.path.join(dp, n)
                    t = os.readlink(p) if os.path.islink(p) else open(p).read()
                    m = re.fullmatch(r"(?:file |none-)(\d+)", t)
                    at[int(m.group(1))] = [list(c) for c in os.path.relpath(p, base).split("/")]
            if a["dry"] and x["rc"] == 0:
                for l in x["out"].decode("utf8", "replace").splitlines():
                    m = re.match(r"Would rename: (.*?) -> (.*)$", l.strip())
                    if m:
                        s, t = [[list(c) for c in os.path.relpath(y, base).split("/")] for y in m.groups()]
                        if s in at:
                            plan[at.index(s)] = t
            if x["timeout"]:
                out.append(dict(died="hangs: " + line))
                break
            if b"panicked" in x["err"]:
                out.append(dict(died=line + ": " + x["err"].decode()[-300:]))
                break
            out.append(dict(rc=x["rc"], at=at, nd=nd, plan=plan))
        b.done()
        return out

    def execute(self, runs):
        return pmap(self.run1, runs, 12)

    # ---- random histories
    def random_histories(self):
        rng = self.rng
        out = []
        for _ in range(450 if self.quick else 3000):
            ab = list(rng.choice(["ab", "abé", "ab漢.", "ab$1", "ab.+", "ab2$(", "a b"]))
            lower = lambda: rng.choice("ab")

            def name(n=3):
                while True:
                    t = "".join(rng.choice(ab) for _ in range(rng.randint(1, n)))
                    if any(c in "ab" for c in t) and t.strip() == t:
                        return t
            files = []
            while len(files) < 6:
                f = rng.choice([["w"], ["w"], ["w"], ["w", "D"], ["w", "D", "E"], []]) + [name()]
                if f not in files:
                    files.append(f)
            acts = [dict(op="begin", at=[[list(n) for n in f] for f in files])]
            for _ in range(3):
                toks, ng, g, stars = [], 0, 0, 0
                for _ in range(rng.randint(1, 4)):
                    if rng.random() < 0.55:
                        ng += 1
                        g = ng
                        k = rng.choice([1, 1, 1, 2, 0])
                    else:
                        g, k = 0, 1
                    for _ in range(k):
                        x = rng.random()
                        if x < 0.45 and stars < 2:
                            toks.append(tok("star", "", g))
                            stars += 1
                        elif x < 0.6:
                            toks.append(tok("any", "", g))
                        elif x < 0.7:
                            toks.append(tok("set", rng.choice(["ab", "aé", "a.", "b漢a"]), g))
                        else:
                            c = rng.choice([c for c in ab if c not in "()"])
                            toks.append(tok("ch", c, g))
                # two stars in a row would be ** and a pattern must hold a small letter: folders have none
                toks = [t for i, t in enumerate(toks) if not (t["k"] == "star" and i and toks[i - 1]["k"] == "star")]
                if not any(t["k"] == "ch" and t["cs"][0] in "ab" for t in toks):
                    toks.insert(rng.randint(0, len(toks)), tok("ch", lower(), 0))
                # groups stay in one piece
                seen, g, ok = set(), 0, True
                for t in toks:
                    if t["g"] != g:
                        ok = ok and t["g"] not in seen
                        seen.add(t["g"])
                        seen.discard(0)
                        g = t["g"]
                if not ok:
                    for t in toks:
                        t["g"] = 0
                    ng = 0
                rep = rng.choice(["", "", "", "", "D/", "N/", "../", "D/E/", "./", "../D/"])
                refs = 0
                for _ in range(rng.randint(1, 4)):
                    if rng.random() < 0.5 and refs < 2:
                        rep += "$" + rng.choice("01122")
                        refs += 1
                    else:
                        rep += rng.choice([c for c in ab if c != " "])
                if rng.random() < 0.8 and refs == 0:
                    rep += rng.choice(["$0", "$1"])
                acts.append(dict(op="dmv", rec=rng.random() < 0.35, pat=toks, ng=ng, rep=list(rep), force=rng.random() < 0.4,
                                 dry=rng.random() < 0.15))
            out.append(dict(cfg=dict(files=files), acts=acts))
        return out
