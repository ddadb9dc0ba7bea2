"""C02: pipelines, redirections and substitutions (spec/DataFlow.tla)."""
import json, os, random, re
from vt.core import Check
from vt.e2e import Box, pmap

DRAIN = "[ -p /dev/stdin ] && cat >/dev/null\n"
PROGS = {
    "em": DRAIN + 'echo "$1"\n',
    "er": DRAIN + 'echo "$1" >&2\n',
    "bo": DRAIN + 'echo "$1e" >&2; echo "$1o"\n',
    "big": DRAIN + 'yes %s | head -n 3000\n' % ("G" + "." * 99),
    "fl": 'exec sed "s/\\$/$1/"\n',
    "sl": DRAIN + 'printf "%s" "$1"; sleep 0.45; echo s\n',
    "nu": DRAIN + "printf '\\351%s\\n' \"$1\"\n",
    "ar": DRAIN + """exec awk 'BEGIN { for (i = 1; i < ARGC; i++) { a = ARGV[i]; gsub(/\\n/, "^", a); print a == "" ? "@" : a } }' "$@"\n""",
    "gap": DRAIN + 'printf "\\n%s\\n\\n%s\\n\\n" "$1" "$1"\n',
    "rf": DRAIN + '[ $# = 0 ] || exec cat "$@"\n',
}
ALL = ["f1", "f2", "f3"]


def st(p, a="", rd=(), sub=()):
    return dict(p=p, a=a, rd=[dict(o=o, f=f) for o, f in rd], sub=list(sub))


class Prop(Check):
    pid = "C02"
    spec = "DataFlow"
    walk_len = 6
    assumptions = ["commands are probes that copy, tag or produce known words; a 300 kB block of equal lines counts as one word",
                   "non-interactive shell (dsh -c), one process per line in the same folder",
                   "no two commands that run at the same time use the same file or both write to the terminal's stderr"]

    def setup(self):
        self.bindir = os.path.join(self.work, "bin")
        os.makedirs(self.bindir)
        for n, t in PROGS.items():
            p = os.path.join(self.bindir, n)
            with open(p, "w") as f:
                f.write("#!/bin/sh\n" + t)
            os.chmod(p, 0o755)

    def configs(self):
        acts = r'''LET
      S(p, a, rd) == [p |-> p, a |-> a, rd |-> rd, sub |-> <<>>]
      R(o, f) == [o |-> o, f |-> f]
      RO == {<<>>, <<R(">", "f1")>>, <<R(">>", "f1")>>, <<R("2>", "f2")>>, <<R("2>>", "f1")>>, <<R("&>", "f1")>>, <<R("&>>", "f2")>>,
             <<R(">", "f1"), R("2>", "f2")>>, <<R("2>>", "f2"), R(">>", "f1")>>, <<R(">", "f2"), R(">", "f1")>>, <<R("2>", "f1"), R("&>", "f2")>>}
      RP == {<<>>, <<R("2>", "f2")>>, <<R(">", "f2")>>, <<R("&>>", "f2")>>}
      RI == {<<R("<", f)>> : f \in Names \cap DOMAIN core[1]}
      RL == {<<>>, <<R(">", "f1")>>, <<R(">>", "f1")>>}
      L(pl) == [op |-> "line", ln |-> <<pl>>]
      W(w) == [k |-> "w", w |-> w]
      E(k, q) == [k |-> k, ln |-> q]
      A(p, sub, rd) == [p |-> p, a |-> "", rd |-> rd, sub |-> sub]
      em == S("em", "a b", <<>>)
      D(k, q) == A("ar", <<W("u"), E(k, q), W("v")>>, <<>>)
    IN
    {L(<<S(p, "b", rd)>>) : p \in {"bo"}, rd \in RO}
    \cup {L(<<S(p, "d", rd)>>) : p \in {"em", "bi", "be", "sl", "nu", "gap"}, rd \in {<<>>, <<R(">", "f1")>>, <<R("2>>", "f1")>>, <<R("&>", "f1")>>}}
    \cup {L(<<S("bo", "b", r1), S("fl", "x", r2)>>) : r1 \in RP, r2 \in RL}
    \cup {L(<<S(p, "c", <<>>), S("fl", "x", <<>>), S("fl", "y", r2)>>) : p \in {"big", "em", "bi", "gap"}, r2 \in RL}
    \cup {L(<<S("em", "c", <<>>), S(p, "e", <<>>)>>) : p \in {"nu", "sl"}} \cup {L(<<S(p, "e", <<>>), S("fl", "x", <<>>)>>) : p \in {"nu", "sl"}}
    \cup {L(<<S("fl", "z", r1 \o r2)>>) : r1 \in RI, r2 \in {<<>>, <<R(">", "f3")>>}}
    \cup {L(<<S("fl", "z", r1), S("fl", "x", <<>>)>>) : r1 \in RI}
    \cup {L(<<S("em", "d", <<>>), S("fl", "z", r1)>>) : r1 \in RI}
    \cup {L(<<D(k, q)>>) : k \in {"$", "(", "<"} \ {"<"}, q \in {<<<<em>>>>, <<<<em, S("fl", "x", <<>>)>>>>, <<<<em>>, <<em>>>>,
              <<<<S("em", " a%b ", <<>>)>>>>, <<<<S("em", "c", <<R(">", "f1")>>)>>>>, <<<<S("big", "", <<>>)>>>>, <<<<S("bi", "k", <<>>)>>>>, <<<<S("gap", "k", <<>>)>>>>, <<<<D("$", <<<<em>>>>)>>>>}}
    \cup {L(<<A("rf", <<E("<", q)>>, <<>>), S("fl", "x", r)>>) : q \in {<<<<em>>>>, <<<<em>>, <<S("big", "", <<>>)>>>>}, r \in RL}'''
        return [dict(consts=dict(self.trace_consts(), Acts=acts), properties=["OnlyTargets", "Delivered"],
                     constraint="Bounded", max_steps=1500 if self.quick else 9000)]

    def trace_consts(self):
        return dict(Names='{"f1", "f2", "f3"}', Acts="{}")

    # ---- concrete text
    def fname(self, f, rng):
        return rng.choice(["%s", '"%s"', "'%s'", "./%s", "{B}/%s", "d/../%s"]) % f

    def word(self, w, rng):
        if re.fullmatch(r"[a-z0-9]+", w) and rng.random() < 0.6:
            return w
        return rng.choice(["'%s'", '"%s"']) % w.replace("%", "\t")

    def stage(self, s, rng):
        p = s["p"]
        if p == "bi":
            head, args = "alias", ["z" + s["a"]]
        elif p == "be":
            head, args = "alias", ["zz" + s["a"]]
        elif p in ("ar", "rf"):
            head, args = p, []
            for x in s["sub"]:
                if x["k"] == "w":
                    args.append(self.word(x["w"], rng))
                else:
                    args.append({"$": "$(%s)", "(": "(%s)", "<": "<(%s)"}[x["k"]] % self.line(x["ln"], rng, True))
        elif p == "big":
            head, args = p, []
        else:
            head, args = p, [self.word(s["a"], rng)]
        rds = [r["o"] + rng.choice([" ", "", "  "]) + self.fname(r["f"], rng) for r in s["rd"]]
        # redirections anywhere after the command name, in their order
        out, i, j = [head], 0, 0
        while i < len(args) or j < len(rds):
            if j < len(rds) and (i == len(args) or rng.random() < 0.3):
                out.append(rds[j]); j += 1
            else:
                out.append(args[i]); i += 1
        return " ".join(out)

    def pipe(self, pl, rng, inner):
        t = self.stage(pl[0], rng)
        for s in pl[1:]:
            t += rng.choice([" | ", " |", " |  "]) + self.stage(s, rng)
        if not inner and rng.random() < 0.15 and "(" not in t:
            t += " |>"
        return t

    def line(self, ln, rng, inner=False):
        return rng.choice(["; ", " ; ", ";"]).join(self.pipe(pl, rng, inner) for pl in ln)

    # ---- execution
    def execute(self, runs):
        return pmap(self.run_one, [(r, random.Random("%s %s" % (self.rng.random(), i))) for i, r in enumerate(runs)], 20)

    def words(self, data):
        t = data.replace(b"\xe9", b"N").decode("utf-8", "replace").replace("\r\n", "\n").replace("." * 99, "").replace("\t", "%")
        t = t.replace("\ufffd", "R")
        out, big = [], {}
        lines = [l for l in t.split("\n")]
        if lines and lines[-1] == "":
            lines.pop()
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.fullmatch(r"z(.*)='\1'", re.sub(r"[xyz]*$", "", l)) if False else re.match(r"z(\w+)='\1'(.*)$", l)
            e = re.match(r"alias: zz(\w+): not found(.*)$", l)
            if m:
                out.append(m.group(1) + m.group(2))
            elif e:
                out.append(e.group(1) + e.group(2))
            elif l.startswith("G"):
                n = 0
                while i + n < len(lines) and lines[i + n] == l and n < 3000:
                    n += 1
                out.append(l if n == 3000 else "%s#%d" % (l, n))
                i += n
                continue
            elif l != "":
                out.append(l)
            i += 1
        return out

    def run_one(self, a):
        r, rng = a
        b = Box(self.work)
        os.makedirs(b.work + "/d")
        os.makedirs(b.dir + "/config/dsh")
        with open(b.dir + "/config/dsh/config.lisp", "w") as f:
            for w in "abcdk":
                f.write('(alias "z%s" "%s")\n' % (w, w))
        obs = []
        for act in r["acts"]:
            line = self.line(act["ln"], rng).replace("{B}", b.work)
            x = b.run([self.bin["dsh"], "-c", line], env=dict(PATH=self.bindir + ":" + b.env["PATH"]), settle=True)
            if x["timeout"]:
                obs.append(dict(died="hangs: " + line))
                break
            fs = []
            for n in sorted(os.listdir(b.work)):
                if n == "d":
                    continue
                fs.append([n, self.words(open(os.path.join(b.work, n), "rb").read())])
            if "|>" in line:      # |> shows the text it kept, which is not byte for byte
                x["out"] = x["out"].replace(b"\xef\xbf\xbd", b"\xe9")
            obs.append(dict(out=self.words(x["out"]), err=self.words(x["err"]), files=fs))
            self.log_line(line)
        b.done()
        return obs

    def log_line(self, line):
        if len(self.extra.setdefault("sample_lines", [])) < 12 and self.rng.random() < 0.05:
            self.extra["sample_lines"].append(line)

    # ---- random lines
    def rand_pipe(self, rng, have, depth, state):
        n = rng.choice([1, 1, 2, 2, 3, 4])
        outs = [f for f in ALL if f not in state["busy"]]
        pl = []
        err_used = state.get("errbusy", False)
        # a message of a builtin has blanks: substitutions would split it
        readable = [f for f in have if f not in state["busy"] and not (depth and f in self.messages)]
        for k in range(n):
            first, last = k == 0, k == n - 1
            if first:
                p = rng.choice(["em", "em", "bo", "er", "bi", "be", "big", "fl", "ar", "rf", "gap"] + (["nu"] if not depth else []) + (["sl"] if rng.random() < 0.1 else []) if depth < 2 else ["em", "bo", "bi", "big", "fl", "gap"])
            else:
                # a builtin does not wait for the commands before it
                p = rng.choice(["fl", "fl", "fl", "em", "bo"] + (["nu"] if not depth else []) + (["sl"] if last and rng.random() < 0.3 else []) + (["bi"] if last and all(x["p"] in ("em", "fl", "big", "bi")
                                                                  and not x["rd"] for x in pl) else []))
            if p in ("er", "be", "bo") and err_used:
                p = "fl" if not first else "em"
            sub = []
            if p in ("ar", "rf"):
                for n_ in range(rng.randint(1, 3)):
                    if p == "ar" and rng.random() < 0.4:
                        sub.append(dict(k="w", w=rng.choice(["a", "b c", "*", "k"])))
                    else:
                        k = rng.choice(["$", "$", "("]) if p == "ar" else "<"
                        sub.append(dict(k=k, ln=self.rand_line(rng, have, 2 if sub else depth + 1, state)))
            outs = [f for f in outs if f not in state["busy"]]
            readable = [f for f in readable if f not in state["busy"]]
            rd = []
            if p == "fl" and first and readable and rng.random() < 0.7:
                f = rng.choice(readable)
                readable.remove(f)
                if f in outs:
                    outs.remove(f)
                rd.append(("<", f))
            fd = None
            if outs and rng.random() < (0.45 if last else 0.2):
                for _ in range(rng.choice([1, 1, 1, 2])):
                    if not outs:
                        break
                    f = rng.choice(outs)
                    outs.remove(f)
                    if f in readable:
                        readable.remove(f)
                    rd.append((rng.choice([">", ">>", ">", ">>", "2>", "2>>", "&>", "&>>"]), f))
            if p in ("er", "be", "bo") and not any(o in ("2>", "2>>", "&>", "&>>") for o, _ in rd):
                err_used = True
                if not last or depth:       # it may still be running when the next pipeline starts
                    state["errbusy"] = True
            rng.shuffle(rd)
            a = {"big": "", "ar": "", "rf": "", "bi": rng.choice("abcdk"), "be": "q", "fl": rng.choice("xyz")}.get(p) \
                if p in ("big", "ar", "rf", "bi", "be", "fl") else rng.choice(["a", "b", "c", "a b", "q r s", "d*", " a", "b  ", "a%b"])
            pl.append(st(p, a, rd, sub))
        for s in pl:
            for r in s["rd"]:
                state["used"].add(r["f"])
                if s["p"] == "be" and r["o"] != "<":
                    self.messages.add(r["f"])
        return pl

    def rand_line(self, rng, have, depth, state):
        ln = []
        for i in range(rng.choice([1, 1, 2]) if depth else rng.choice([1, 1, 2, 3])):
            pl = self.rand_pipe(rng, have, depth, state)
            ln.append(pl)
            # a stage before the last one that uses a file may still be running: leave that file alone
            for k, s in enumerate(pl):
                for r in s["rd"]:
                    if depth or k < len(pl) - 1:
                        state["busy"].add(r["f"])
            if depth == 0 and any(x["k"] != "w" for s in pl for x in s["sub"]):
                break
        return ln

    def random_histories(self):
        out = []
        for _ in range(280 if self.quick else 1500):
            have, acts = set(), []
            self.messages = set()
            for _ in range(5):
                state = dict(busy=set(), used=set())
                # substitutions run before the line: keep lines with them to one pipeline
                ln = self.rand_line(self.rng, sorted(have), 0, state)
                if any(x["k"] != "w" for pl in ln for s in pl for x in s["sub"]):
                    ln = [pl for pl in ln if any(x["k"] != "w" for s in pl for x in s["sub"])][:1]
                acts.append(dict(op="line", ln=ln))
                have |= self.targets(ln)
            out.append(dict(cfg={}, acts=acts))
        return out

    def targets(self, ln):
        t = set()
        for pl in ln:
            for s in pl:
                t |= {r["f"] for r in s["rd"] if r["o"] != "<"}
                for x in s["sub"]:
                    if x["k"] != "w":
                        t |= self.targets(x["ln"])
        return t
