"""C12: output history (spec/OutRing.tla, spec/OutHist.tla)."""
import os, random
from vt.core import Check

CH = [("a", 1), ("é", 2), ("漢", 3), ("🐕", 4)]
PROGS = {
    "po": 'printf "%b" "$1"; printf "%b" "$2" >&2; exit $3\n',
    "fl": 'exec sed "s/\\$/$1/"\n',
    "ar": 'printf "%s\\000" "$@" > seen\n',
}


def tok(c, w, n):
    return dict(c=c if n else "", w=w, n=n, t=False)


class Prop(Check):
    pid = "C12"
    spec = "OutHist"
    module = "outhist"
    walk_len = 30
    assumptions = ["a session is evaluated non-interactively (the interactive PTY capture is not exercised)",
                   "commands print plain text (terminal control sequences are removed before recording)"]

    def setup(self):
        self.bindir = os.path.join(self.work, "bin")
        os.makedirs(self.bindir)
        for n, t in PROGS.items():
            p = os.path.join(self.bindir, n)
            with open(p, "w") as f:
                f.write("#!/bin/sh\n" + t)
            os.chmod(p, 0o755)

    def configs(self):
        ring = r'''LET T(c, w, n) == [c |-> IF n = 0 THEN "" ELSE c, w |-> w, n |-> n, t |-> FALSE]
            E(k, o, e, x) == [k |-> k, o |-> o, e |-> e, x |-> x] IN
    {[op |-> "push", e |-> E(k, o, e, 0)] : k \in {1, 5}, o \in {T("a", 1, 0), T("a", 1, 3), T("a", 1, 30), T("d", 3, 7)},
                                           e \in {T("b", 1, 0), T("b", 1, 9), T("e", 2, 8)}}
    \cup {[op |-> "get", i |-> i] : i \in 0..3} \cup {[op |-> "clear"]}'''.replace('"d"', '"漢"').replace('"e", 2', '"é", 2')
        lims = "{[n |-> 3, per |-> 12, tot |-> 70], [n |-> 2, per |-> 1000, tot |-> 40], [n |-> 1, per |-> 0, tot |-> 60]}"
        sh = r'''LET T(l, z) == [l |-> l, z |-> z]
            R(t, s, i) == [t |-> t, s |-> s, i |-> i]
            fs == {<<>>, <<"x">>, <<"x", "y">>} IN
    {[op |-> "run", o |-> o, e |-> e, x |-> x, how |-> h, f |-> f] : o \in {T(<<>>, FALSE), T(<<"a">>, TRUE), T(<<"b", "c">>, FALSE)},
        e \in {T(<<>>, FALSE), T(<<"w">>, TRUE)}, x \in {0, 3}, h \in {"plain", "cap", "quiet", "bg"}, f \in {<<>>, <<"x">>}}
    \cup {[op |-> "pipe", f |-> f, how |-> h] : f \in {<<"x">>, <<"x", "y">>}, h \in {"plain", "cap", "quiet"}}
    \cup {[op |-> "use", r |-> <<R("$OUT", "OUT", 1), R("$ERR[2]", "ERR", 2), R("$OUT[3]", "OUT", 3), R("$ERR", "ERR", 1)>>],
          [op |-> "use", r |-> <<R("$OUT[1]", "OUT", 1), R("$OUT[2]", "OUT", 2), R("$OUT[0]", "OUT", 0)>>]}
    \cup {[op |-> "out", i |-> i] : i \in {0, 1, 2, 3}} \cup {[op |-> "list"]}'''
        return [dict(spec="OutRing", consts=dict(Acts=ring, Lims=lims), invariants=["Bounded", "EntryBounded"],
                     properties=["Newest"], max_steps=12000 if self.quick else 80000),
                dict(spec="OutHist", consts=dict(Acts=sh), properties=["Kept", "ReadOnly"], constraint="Short",
                     max_steps=1500 if self.quick else 12000)]

    def run_cfg(self, init):
        if len(init) == 2:
            return dict(mode="ring", lim=init[1])
        return dict(mode="shell")

    def execute(self, runs):
        rnd = [random.Random(self.rng.random()) for _ in runs]
        conc = []
        for r, g in zip(runs, rnd):
            cfg = dict(r["cfg"], bin=self.bindir)
            conc.append(dict(cfg=cfg, acts=[a if cfg["mode"] == "ring" else self.line(a, g) for a in r["acts"]]))
        return self.run_harness(conc)

    def esc(self, t):
        s = "".join(x + "\\n" for x in t["l"])
        return s if t["z"] or not s else s[:-2]

    def line(self, a, g):
        sp = g.choice([" ", "  "])
        suffix = {"plain": "", "cap": g.choice([" |>", "|>"]), "quiet": sp + ">" + g.choice(["", " "]) + "seen", "bg": " &"}
        if a["op"] == "run":
            o = dict(a["o"])
            if a["how"] == "plain" and not a["f"] and g.random() < 0.3:     # colours are not recorded
                o["l"] = ["\\033[1;31m" + l + "\\033[0m" for l in o["l"]]
            t = "po '%s' '%s' %d" % (self.esc(o), self.esc(a["e"]), a["x"])
            t += "".join(" | fl " + f for f in a["f"]) + suffix[a["how"]]
            return dict(line=t, read="file" if a["how"] == "quiet" else "")
        if a["op"] == "pipe":
            return dict(line=g.choice(["", " "]) + " ".join("| fl " + f for f in a["f"]) + suffix[a["how"]],
                        read="file" if a["how"] == "quiet" else "")
        if a["op"] == "use":
            return dict(line="ar" + "".join(sp + r["t"] for r in a["r"]), read="args")
        if a["op"] == "out":
            n = "" if a["i"] == 1 and g.random() < 0.5 else " %d" % a["i"]
            return dict(line="out%s > seen" % n, read="file")
        return dict(line="out %s > seen" % g.choice(["-l", "--list"]), read="list")

    def random_histories(self):
        rng = self.rng
        out = []
        for _ in range(120 if self.quick else 400):
            lim = dict(n=rng.choice([1, 2, 5, 20]), per=rng.choice([1, 7, 40, 300]), tot=rng.choice([50, 200, 1500]))
            acts = [dict(op="new", lim=lim)]
            for _ in range(40):
                x = rng.random()
                if x < 0.7:
                    o, e = [tok(*rng.choice(CH), rng.choice([0, 0, 1, 5, rng.randint(0, 120)])) for _ in "oe"]
                    acts.append(dict(op="push", e=dict(k=rng.randint(0, 30), o=o, e=e, x=rng.randint(0, 255))))
                elif x < 0.97:
                    acts.append(dict(op="get", i=rng.randint(0, 8)))
                else:
                    acts.append(dict(op="clear"))
            out.append(dict(cfg=dict(mode="ring", lim=lim), acts=acts))
        words = ["a", "b c", "日本", "-n x", "it", "  pad", "50%", "k=v"]
        for _ in range(60 if self.quick else 240):
            acts = []
            for _ in range(26):
                def text():
                    l = [rng.choice(words) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                    return dict(l=l, z=bool(l) and rng.random() < 0.7)
                x = rng.random()
                how = rng.choice(["plain", "plain", "cap", "cap", "quiet"])
                if x < 0.45:
                    f = rng.choice([[], [], ["x"], ["x", "y"]])
                    if how == "plain" and rng.random() < 0.1 and not f:
                        how = "bg"
                    acts.append(dict(op="run", o=text(), e=text(), x=rng.choice([0, 0, 1, 3, 127]), how=how, f=f))
                elif x < 0.65:
                    acts.append(dict(op="pipe", f=rng.choice([["x"], ["y", "z"]]), how=how))
                elif x < 0.85:
                    r = []
                    for _ in range(rng.randint(1, 3)):
                        i = rng.randint(0, 6)
                        s = rng.choice(["OUT", "ERR"])
                        r.append(dict(t="$" + s + ("" if i == 1 and rng.random() < 0.5 else "[%d]" % i), s=s, i=i))
                    acts.append(dict(op="use", r=r))
                elif x < 0.95:
                    acts.append(dict(op="out", i=rng.randint(0, 6)))
                else:
                    acts.append(dict(op="list"))
            out.append(dict(cfg=dict(mode="shell"), acts=acts))
        return out

    def trace_groups(self, hist, res):
        r = [i for i, h in enumerate(hist) if h["cfg"]["mode"] == "ring"]
        s = [i for i, h in enumerate(hist) if h["cfg"]["mode"] == "shell"]
        return [("OutRing", dict(Acts="{}", Lims="{[n |-> 1, per |-> 1, tot |-> 1]}"), r), ("OutHist", dict(Acts="{}"), s)]
