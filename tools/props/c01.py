"""C01: command lists, gating and exit status (spec/CmdList.tla)."""
import json, os
from vt.core import Check
from vt.e2e import Box, pmap

PROBE = r'''#!/bin/sh
# pr NAME CODE [o] [e] ...: logs NAME and where it runs, prints (o: stdout, e: stderr), then exits with CODE (-s: killed by signal s)
if [ -p /dev/stdin ]; then cat >/dev/null; fi
d=$(pwd -P); b=${VLOG%/log}
echo "$1 ${d#$b/}" >> "$VLOG"
case "$3$4" in *o*) echo "out $1";; esac
case "$3$4" in *e*) echo "err $1" >&2;; esac
case "$2" in -*) kill $2 $$; sleep 5;; *) exit $2;; esac
'''
DIRS = ["w", "w/a", "w/b"]


def ext(st, sep="", bg=False, cap=False):
    return dict(k="ext", st=list(st), bg=bg, cap=cap, sep=sep)


def cd(d, sep=""):
    return dict(k="cd", d=d, sep=sep)


class Prop(Check):
    pid = "C01"
    spec = "CmdList"
    module = "cmdlist"
    walk_len = 25
    nshards = 32
    assumptions = ["commands are probes that log themselves and exit with a chosen status or die of a chosen signal",
                   "non-interactive evaluation: in-process sessions, dsh -c and lines piped to dsh",
                   "lines the grammar does not accept as a whole are not generated"]

    def setup(self):
        self.bindir = os.path.join(self.work, "bin")
        os.makedirs(self.bindir)
        p = os.path.join(self.bindir, "pr")
        with open(p, "w") as f:
            f.write(PROBE)
        os.chmod(p, 0o755)

    def configs(self):
        jobs = '''
  {[k |-> "ext", st |-> s, bg |-> FALSE, cap |-> FALSE] : s \\in {<<0>>, <<3>>, <<3, 0>>, <<0, 4>>}}
  \\cup {[k |-> "cd", d |-> d] : d \\in {"w/a", "nodir"}}'''
        few = '''{[k |-> "ext", st |-> <<0>>, bg |-> FALSE, cap |-> FALSE], [k |-> "ext", st |-> <<0, 5>>, bg |-> FALSE, cap |-> FALSE],
   [k |-> "cd", d |-> "w"]}'''
        odd = '''
  {[k |-> "ext", st |-> <<7>>, bg |-> TRUE, cap |-> FALSE, sep |-> ";"]}
  \\cup {[k |-> "ext", st |-> c, bg |-> FALSE, cap |-> TRUE, sep |-> s] : c \\in {<<0>>, <<6>>, <<0, 6>>}, s \\in {";", "&&", "||"}}
  \\cup {[k |-> "ext", st |-> c, bg |-> FALSE, cap |-> FALSE, sep |-> s] : c \\in {<<-9>>, <<255>>, <<0, 0, 9>>, <<1, 0, 0>>, <<0, 2, 0, 0>>}, s \\in {"&&", "||"}}
  \\cup {[k |-> "nf", sep |-> s] : s \\in {";", "||"}}
  \\cup {[k |-> "sub", in |-> <<[k |-> "ext", st |-> <<c>>, bg |-> FALSE, cap |-> FALSE, sep |-> z],
                               [k |-> "ext", st |-> <<0>>, bg |-> FALSE, cap |-> FALSE, sep |-> ""]>>, st |-> <<d>>, sep |-> s] :
            c \\in {0, 8}, z \\in {"&&", "||", ";"}, d \\in {0, 3}, s \\in {"&&", "||"}}'''
        t = '[op |-> "line", js |-> <<j1, j2>>]'
        acts = '''LET J == %s
      F == %s
      O == %s
      X == {[k |-> "ext", st |-> <<0>>, bg |-> FALSE, cap |-> FALSE, sep |-> ""]}
      S == {";", "&&", "||"}
      L(js) == [op |-> "line", js |-> js]
      W(j, s) == [x \\in DOMAIN j \\cup {"sep"} |-> IF x = "sep" THEN s ELSE j[x]] IN
  {L(<<W(a, "")>>) : a \\in J}
  \\cup {L(<<W(a, s), W(b, "")>>) : a \\in J, b \\in J, s \\in S}
  \\cup {L(<<W(a, s), W(b, t), W(c, "")>>) : a \\in J, b \\in J, c \\in F, s \\in S, t \\in S}
  \\cup {L(<<a, b>>) : a \\in O, b \\in X} \\cup {L(<<W(f, s), a, b>>) : f \\in F, s \\in S, a \\in {o \\in O : o.k # "sub"}, b \\in X}''' % (jobs, few, odd)
        acts = acts.replace("<<a, b>>", "<<a, b>>")
        return [dict(consts=dict(self.trace_consts(), Acts=acts),
                     properties=["GateOk", "NothingRuns"], max_steps=4000 if self.quick else 12000)]

    def trace_consts(self):
        return dict(Dirs='{"w", "w/a", "w/b"}', Fields='{"ran", "loose", "rc", "cwd"}', Acts="{}")

    def run_cfg(self, init):
        return dict(dirs=DIRS, cwd="w", bin=self.bindir, mode="session")

    # ---- concrete text
    def text(self, js, rng, p="", nl=True):
        """nl: the command may go on over several lines"""
        out = ""
        for i, j in enumerate(js, 1):
            def one(s):
                c = str(j["st"][s - 1])
                # what a command prints changes nothing
                c += rng.choice(["", "", "", " o", " e", " o e"])
                return "pr %s%s %s" % (rng.choice(["", " "]), rng.choice(['%sj%ds%d', "'%sj%ds%d'", '"%sj%ds%d"']) % (p, i, s), c)
            if j["k"] == "cd":
                t = "cd " + rng.choice(["{B}/%s", '"{B}/%s"', "{B}/./%s"]) % j["d"]
            elif j["k"] == "nf":
                t = "nosuchcmd-v x"
            elif j["k"] == "sub":
                t = one(1) + " $(" + self.text(j["in"], rng, "x", nl) + ")"
            else:
                t = rng.choice([" | ", "|", "  | "] + ([" |\n", " \\\n| "] if nl else [])).join(one(s) for s in range(1, len(j["st"]) + 1))
                if len(j["st"]) > 1:
                    t = t.replace(" |", " |")
                if j["bg"]:
                    t += rng.choice([" &", "&", " & "])
                if j["cap"]:
                    t += rng.choice([" |>", " |> ", "|>"])
            out += t
            if i < len(js):
                if j["k"] == "ext" and j["bg"]:
                    out += rng.choice([" ", "; "] + (["\n", ";\n"] if nl else [])) if not t.endswith(" ") else ""
                else:
                    sep = j["sep"] if j["sep"] != ";" or not nl else rng.choice([";", ";", "\n"])
                    out += rng.choice([" %s ", "%s ", "%s", "  %s  "] + (["%s\n", " %s\n  \n", " \\\n%s "] if nl else [])) % sep
        return out + rng.choice(["", "", " ", ";"] + (["\n"] if nl else []) if not (p or js[-1].get("bg")) else [""])

    def new_ctx(self, rng):
        return dict(rng=rng)

    def concretize(self, act, ctx):
        return dict(line=self.text(act["js"], ctx["rng"]))

    def names(self, js):
        ran, loose = [], []
        for i, j in enumerate(js, 1):
            if j["k"] == "sub":
                for k, q in enumerate(j["in"], 1):
                    ran.append("xj%ds%d" % (k, len(q["st"])))
                    loose += ["xj%ds%d" % (k, s) for s in range(1, len(q["st"]))]
        for i, j in enumerate(js, 1):
            if j["k"] == "sub":
                ran.append("j%ds1" % i)
            elif j["k"] == "ext":
                n = len(j["st"])
                (loose if j["bg"] else ran).append("j%ds%d" % (i, n))
                loose += ["j%ds%d" % (i, s) for s in range(1, n)]
        loose.sort(key=lambda x: (not x.startswith("x"), x))
        return ran, loose

    def fold(self, act, raw):
        ran, loose = self.names(act["js"])
        lo = [x for x in raw["log"] if x.split(" ")[0] in loose]
        lo.sort(key=lambda x: loose.index(x.split(" ")[0]))
        return dict(ran=[x for x in raw["log"] if x.split(" ")[0] not in loose], loose=lo,
                    rc=raw["rc"], cwd=raw["cwd"])

    def execute(self, runs):
        sess = [r for r in runs if r["cfg"]["mode"] == "session"]
        res = iter(super().execute(sess) if sess else [])
        cs = iter(pmap(self.run_c, [r for r in runs if r["cfg"]["mode"] != "session"], 32))
        out = []
        for r in runs:
            if r["cfg"]["mode"] == "session":
                out.append([self.fold(a, o) if "log" in o else o for a, o in zip(r["acts"], next(res))])
            else:
                out.append(next(cs))
        return out

    def run_c(self, r):
        """one line, run by `dsh -c` or piped to dsh; the final directory is logged by a last command"""
        import random
        rng = random.Random(json.dumps(r["acts"]))
        b = Box(self.work)
        base = b.dir + "/base"
        for d in DIRS:
            os.makedirs(os.path.join(base, d))
        env = dict(VLOG=base + "/log", PATH=self.bindir + ":" + b.env["PATH"])
        a = r["acts"][0]
        line = self.text(a["js"], rng, nl=r["cfg"]["mode"] != "p").replace("{B}", base)
        if r["cfg"]["mode"] == "c":
            x = b.run([self.bin["dsh"], "-c", line], cwd=base + "/w", env=env)
            rc = x["rc"]
        else:
            pre = "true\n"
            post = "\npr end 0\nexit\npr never 0\n"
            x = b.run([self.bin["dsh"]], cwd=base + "/w", env=env, stdin=(pre + line + post).encode())
            rc = None
        try:
            log = open(base + "/log").read().splitlines()
        except FileNotFoundError:
            log = []
        b.done()
        if x["timeout"]:
            return [dict(died="hangs: " + line)]
        if r["cfg"]["mode"] == "c":
            o = self.fold(a, dict(log=log, rc=rc, cwd=None))
            del o["cwd"]
        else:
            end = [l for l in log if l.startswith("end ")]
            if len(end) != 1 or any(l.startswith("never") for l in log):
                return [dict(died="later lines of the session: %s" % log)]
            o = self.fold(a, dict(log=[l for l in log if not l.startswith("end ")], rc=None, cwd=end[0].split(" ", 1)[1]))
            del o["rc"]
        return [o]

    def trace_groups(self, hist, res):
        g = lambda m: [i for i, h in enumerate(hist) if h["cfg"]["mode"] == m]
        return [(self.spec, self.trace_consts(), g("session")),
                (self.spec, dict(self.trace_consts(), Fields='{"ran", "loose", "rc"}'), g("c")),
                (self.spec, dict(self.trace_consts(), Fields='{"ran", "loose", "cwd"}'), g("p"))]

    def rand_line(self, rng, sess):
        js = []
        n = rng.randint(1, 6)
        for i in range(n):
            sep = rng.choice([";", "&&", "||", "&&", "||"]) if i < n - 1 else ""
            x = rng.random()
            code = lambda: rng.choice([0, 0, 0, 1, 2, 42, 126, 127, 255, -9, rng.choice([-15, -13, -1, -2, -14, -10])])
            if x < 0.18:
                js.append(cd(rng.choice(DIRS + ["nodir", "w/c"]), sep))
            elif x < 0.24 and i == 0:
                js.append({"k": "sub", "in": [ext([code() for _ in range(rng.choice([1, 1, 2]))],
                                                  rng.choice([";", "&&", "||"]) if k < 2 else "") for k in range(3)],
                           "st": [code()], "sep": sep})
            elif x < 0.27 and not (js and js[0]["k"] == "sub"):
                js.append(dict(k="nf", sep=sep))
            elif x < 0.33:
                js.append(ext([code() for _ in range(rng.choice([1, 2]))], ";" if sep else "", bg=True))
            elif x < 0.40:
                js.append(ext([code() for _ in range(rng.choice([1, 2]))], sep, cap=True))
            else:
                js.append(ext([code() for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))], sep))
        return dict(op="line", js=js)

    def random_histories(self):
        out = []
        for _ in range(350 if self.quick else 400):
            out.append(dict(cfg=self.run_cfg(None), acts=[self.rand_line(self.rng, True) for _ in range(6)]))
        for _ in range(500 if self.quick else 1500):
            out.append(dict(cfg=dict(mode="c"), acts=[self.rand_line(self.rng, False)]))
        for _ in range(400 if self.quick else 1000):
            out.append(dict(cfg=dict(mode="p"), acts=[self.rand_line(self.rng, False)]))
        return out
