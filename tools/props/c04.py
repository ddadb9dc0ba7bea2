"""C04: what AI tools reach, change and start (spec/Agent.tla)."""
import json, re, shlex
from vt.core import Check
from vt.tlc import tla

W, HOME = ["w"], ["home"]
S = ["home", ".config", "dsh", "skills"]
TEXTS = {"t1": "alpha\nneedle one\n", "t2": "β and needle", "t3": "  thread \r\nq\"uo\\te\tx", "e": "", "x4096": "x" * 4096, "big2": "é" * 3000, "big3": "日" * 1500,
         "sc": "#!/bin/sh\nexec rec \"$0\" \"$@\"\n", "bin": None, "near": "a needlework\nneedle\n"}
QUERIES = ["needle", "alpha", "thread", "q\"uo\\te", "zz"]
DIRS = [["w"], ["w", "d"], ["w", "d", "in"], ["w", "ig"], ["w", "ig", "deep"], ["out"], ["out", "od"], ["home"], ["home", ".config"], ["home", ".config", "dsh"], S, S + ["sk"]]
FILES = {("w", "a.txt"): "t1", ("w", "b.key"): "t2", ("w", "d", "c.txt"): "near", ("w", "d", "in", "a.txt"): "t2", ("w", "ig", "f.txt"): "t1", ("w", "ig", "deep", "c.txt"): "t2",
         ("w", "tool"): "sc", ("out", "secret"): "t1", ("out", "evil"): "sc", ("out", "ra"): "sc", tuple(S) + ("run",): "sc", tuple(S) + ("sk", "go"): "sc", tuple(S) + ("doc.md",): "t3"}
LINKS = {("w", "l1"): ["out"], ("w", "l2"): ["w", "d"], ("w", "l3"): ["out", "none"], ("w", "d", "l4"): ["out", "secret"], ("w", "l5"): S + ["run"],
         tuple(S) + ("l6",): ["out", "evil"], ("w", "l7"): ["w", "ig"], tuple(S) + ("l9",): ["w", "tool"]}
BIN = ["ra", "rb", "x3", "bash", "python3", "rec", "mcpstub"]
NAMES = sorted(set(n for p in DIRS + [list(k) for k in FILES] + [list(k) for k in LINKS] for n in p) | {"..", "new", "n.txt", "n.key", "deep", "none", ".gitignore", ".git", "l8", "bin"})
RULES = [dict(k="dir", n="ig"), dict(k="dir", n="in"), dict(k="ext", n=".key"), dict(k="name", n="a.txt"), dict(k="root", n="d/c.txt"), dict(k="root", n="d/in"),
         dict(k="not", n="b.key"), dict(k="not", n="f.txt"), dict(k="bad", n=""), dict(k="name", n="new")]


def node(k, t="", to=()):
    return dict(k=k, t=t, to=list(to))


def fs0():
    f = {(): node("d")}
    f.update({tuple(d): node("d") for d in DIRS})
    f.update({k: node("f", t) for k, t in FILES.items()})
    f.update({k: node("l", "", to) for k, to in LINKS.items()})
    return f


def P(b, *cs):
    return dict(b=b, cs=list(cs))


def path_text(p, rng=None):
    t = "/".join(p["cs"])
    b = p["b"]
    if b == "rel":
        return t if t else "."
    return dict(abs="{B}/" + t, home="~" + ("/" + t if t else ""), VD="$VD" + ("/" + t if t else ""), VU="$VU/" + t, blank="  ")[b]


def prog_text(pr):
    if pr["k"] == "n":
        return pr["n"]
    return dict(rel="./", abs="{B}/", home="~/")[pr["p"]["b"]] + "/".join(pr["p"]["cs"])


def N(n):
    return dict(k="n", n=n, p=P("rel"))


def G(b, *cs):
    return dict(k="p", n="", p=P(b, *cs))


def words(ws, rng):
    out = []
    for w in ws:
        x = rng.random() if rng else 1
        if x < 0.2 and "'" not in w:
            out.append("'" + w + "'")
        elif x < 0.4:
            out.append('"' + "".join("\\" + c if c in '"\\$`' else c for c in w) + '"')
        else:
            out.append(shlex.quote(w))
    return (rng.choice([" ", "  "]) if rng else " ").join(out)


def known(t):
    return next((k for k, v in TEXTS.items() if v is not None and v == t), "bin" if t == "\ufffd\ufffd" else "?" + t[:40])


class Prop(Check):
    pid = "C04"
    spec = "Agent"
    module = "agent"
    walk_len = 25
    assumptions = ["the model is a stand-in on the loopback network; commands are stubs that record their arguments"]

    def consts(self, acts="{}", dirs=None):
        texts = [dict(id=k, size=len(("xx" if v is None else v).encode()), w=max([1] + [len(c.encode()) for c in (v or "")]) if k[:3] in ("big", "x40") else 1, ok=v is not None)
                 for k, v in TEXTS.items()]
        hits = [[k, q] for k, v in TEXTS.items() if v for q in QUERIES if any(q in l for l in re.split("\r?\n", v))]
        f = " @@ ".join("(%s :> %s)" % (tla(list(k)), tla(v)) for k, v in fs0().items())
        return dict(Acts=acts, Names=tla(NAMES), W=tla(W), S=tla(S), Home=tla(HOME), Fs0=f, Texts="{%s}" % ", ".join(map(tla, texts)),
                    Hits="{%s}" % ", ".join(map(tla, hits)), Bin="{%s}" % ", ".join(map(tla, BIN)))

    def trace_consts(self):
        return self.consts()

    def run_cfg(self, init=None, mcp=False):
        f = lambda p, t: dict(p="/".join(p), t=TEXTS[t], x=t == "sc")
        return dict(mcp=mcp, dirs=["/".join(d) for d in DIRS] + ["bin", "cache"], files=[f(k, t) for k, t in FILES.items()],
                    links=[dict(p="/".join(k), to="{B}/" + "/".join(t)) for k, t in LINKS.items()], stubs=BIN)

    def configs(self):
        E = lambda p, c="t2": dict(t="edit", p=p, c=c)
        R = lambda p: dict(t="read", p=p)
        X = lambda pr, *a: dict(t="exec", pr=pr, **{"as": list(a)})
        ps = [P("rel", "a.txt"), P("rel", "d", "..", "n.txt"), P("rel", "l1", "secret"), P("rel", "l3"), P("rel", "ig", "f.txt"), P("rel", "l2", "new", "n.txt"),
              P("rel", "..", "out", "secret"), P("abs", *S, "doc.md"), P("rel", "l7", "n.txt"), P("rel", "deep", "..", "n.txt"), P("rel", "ig", "deep", "c.txt")]
        calls = [[E(p)] for p in ps] + [[R(p)] for p in ps]
        calls += [[dict(t="ls", p=P("rel"))], [dict(t="ls", p=P("rel", "l7"))], [dict(t="find", p=P("rel"), g=dict(k="all", n=""))], [dict(t="grep", p=P("rel"), q="needle")],
                  [dict(t="grep", p=P("rel", "ig"), q="needle")], [E(ps[1]), R(ps[1]), dict(t="grep", p=P("rel", "d", ".."), q="needle")]]
        ex = [X(N("ra"), "1"), X(N("ra"), "1", "2"), X(N("rb")), X(G("rel", "tool")), X(G("abs", *S, "run"), "a b"), X(G("abs", *S, "l6")), X(G("abs", *S, "l9")), X(G("rel", "l5")),
              X(N("bash"), "-ec", "x"), X(N("ra"), "a;b")]
        chat = lambda q: ['[op |-> "chat", calls |-> %s, ans |-> <<%s>>]' % (tla(c), ", ".join([y] * len(c))) for c in q for y in ("TRUE", "FALSE")]
        one = lambda r: '[op |-> "rules", rs |-> %s]' % tla(r)
        a = chat(calls) + [one([RULES[0]]), one([RULES[0], RULES[7]]), one([RULES[8], RULES[2], RULES[3]])]
        ents = [dict(pr=N("ra"), **{"as": ["1"]}), dict(pr=N("bash"), **{"as": []}), dict(pr=G("rel", "tool"), **{"as": []}), dict(pr=N("ra"), **{"as": []})]
        e = chat([[x] for x in ex] + [[ex[4], ex[0], ex[6]]])
        e += ['[op |-> "allow", e |-> %s]' % tla(x) for x in ents[:3]]
        e += ['[op |-> "env", v |-> %s]' % tla(v) for v in ([], [ents[3]], [ents[2], ents[1]])]
        e += ['[op |-> "file", bad |-> FALSE, v |-> %s]' % tla([ents[3]]), '[op |-> "file", bad |-> TRUE, v |-> <<>>]']
        props = ["Contained", "Kept", "Asked", "OneEach"]
        wrap = lambda x: "{%s}" % ",\n ".join(x)
        small = "IF Cardinality(DOMAIN core[1]) > %d THEN {} ELSE " % (len(fs0()) + 1)
        return [dict(consts=self.consts(small + wrap(a)), properties=props, max_steps=1500 if self.quick else 20000),
                dict(consts=self.consts("IF Len(core[3]) > 1 THEN {x \\in %s : x.op # \"allow\"} ELSE %s" % (wrap(e), wrap(e))), properties=props,
                     max_steps=1200 if self.quick else 20000)]

    # ---- to the wire and back
    def call(self, c):
        t, rng = c["t"], self.rng
        pt = path_text(c["p"]) if "p" in c else None
        if t == "edit":
            return dict(name="edit", args=json.dumps(dict(path=pt, contents=TEXTS[c["c"]])))
        if t == "read":
            return dict(name="read_file", args=json.dumps(dict(path=pt)))
        if t == "ls":
            return dict(name="ls", args=json.dumps({} if pt == "." and rng.random() < 0.5 else dict(path=pt)))
        if t == "find":
            g = dict(name=c["g"]["n"], two=c["g"]["n"], ext="*" + c["g"]["n"], all="*")[c["g"]["k"]]
            return dict(name="search", args=json.dumps(dict(type="filename", query=g, **({} if pt == "." and rng.random() < 0.5 else dict(path=pt)))))
        if t == "grep":
            return dict(name="search", args=json.dumps(dict(type="content", query=c["q"], path=pt)))
        if t == "exec":
            return dict(name="execute", args=json.dumps(dict(command=words([prog_text(c["pr"])] + c["as"], rng))))
        if t == "mcp":
            return dict(name="mcp__srv__ping_me", args=json.dumps(dict(x=c["x"])))
        return dict(name=c["n"], args=c["a"])

    def conc(self, a):
        op = a["op"]
        ent = lambda e: words([prog_text(e["pr"])] + e["as"], None)
        if op == "put":
            return dict(op="put", p="/".join(a["p"]), t=TEXTS[a["t"]] if TEXTS[a["t"]] is not None else "bin")
        if op == "link":
            return dict(op="link", p="/".join(a["p"]), to="{B}/" + "/".join(a["to"]))
        if op == "rules":
            f = {"dir": "%s/", "name": "%s", "ext": "*%s", "root": "/%s", "not": "!%s", "bad": "[a%s"}
            return dict(op="put", p="w/.gitignore", t="# x\n\n" + "".join(f[r["k"]] % r["n"] + "\n" for r in a["rs"]))
        if op == "allow":
            return dict(op="lisp", line='(chat-execute-add "%s")' % ent(a["e"]).replace("\\", "\\\\").replace('"', '\\"'))
        if op == "env":
            return dict(op="env", v=self.rng.choice([",", "\n", " , "]).join(map(ent, a["v"])))
        if op == "file":
            return dict(op="file", v="{no" if a["bad"] else json.dumps(dict(allowed_commands=list(map(ent, a["v"])))))
        return dict(op="chat", calls=[self.call(c) for c in a["calls"]],
                    ans=[self.rng.choice(["y", "Y", " y "]) if y else self.rng.choice(["n", "", "yes please", "N", "no"]) for y in a["ans"]])

    def result(self, c, r):
        if r.startswith("Error:"):
            return "err"
        if r.endswith("cancelled by user."):
            return "no"
        t = c["t"]
        if t == "edit":
            m = re.fullmatch(r"edit completed: wrote (\d+) bytes to (.*)", r, re.S)
            return "wrote " + m[1] if m and m[2] == path_text(c["p"]) else r[:200]
        if t == "read":
            m = re.fullmatch(r"(.*)\n\.\.\. \(truncated (\d+) characters\)", r, re.S)
            if m:
                k = next((k for k, v in TEXTS.items() if v and len(m[1]) > 1000 and v.startswith(m[1])), "?")
                return "read %s %d %s" % (k, len(m[1].encode()), m[2])
            return "read %s %d 0" % (known(r), len(r.encode()))
        if t == "ls":
            ls = r.split("\n")
            if ls[0] != "Directory listing for `%s`:" % path_text(c["p"]) :
                return r[:200]
            out = []
            for l in ls[1:]:
                m = re.fullmatch(r"(.) +(\S+) (.*)", l)
                if m and l != "(empty directory)":
                    out.append("%s %s %s" % (m[1], "?" if m[1] == "-" and (m[3] == ".gitignore" or re.fullmatch(r"l\d", m[3])) else m[2], m[3]))
            return "ls " + ";".join(out)
        if t in ("find", "grep"):
            ls = r.rstrip("\n").split("\n")
            if ls[-1] == "(no matches found)":
                return "found "
            out = []
            for l in ls[1:]:
                l = l[2:] if l.startswith("- ") else "?" + l
                if t == "grep":
                    m = re.fullmatch(r"([^:]*):(\d+): (.*)", l)
                    good = m and any(v and [(i + 1, x.strip()) for i, x in enumerate(v.split("\n")) if c["q"] in x][:1] == [(int(m[2]), m[3])] for v in TEXTS.values())
                    l = m[1] if good else "?" + l
                out.append(l)
            rank = lambda p: [NAMES.index(n) if n in NAMES else 999 for n in (p.replace("{B}/", "") if p.startswith("{B}") else "w/" + p).split("/")]
            return "found " + ";".join(sorted(out, key=rank))
        if t == "exec":
            try:
                v = json.loads(r)
                return "ran %d" % v["exit_code"] + (v["stdout"] + v["stderr"])
            except (ValueError, KeyError, TypeError):
                return r[:200]
        if t == "mcp":
            return "pong" if '"pong"' in r else r[:200]
        return r[:200]

    def execute(self, runs):
        conc = [dict(cfg=r["cfg"], acts=[self.conc(a) for a in r["acts"]]) for r in runs]
        res = self.run_harness(conc)
        rank = lambda p: [NAMES.index(n) if n in NAMES else 999 for n in p.split("/")]
        for r, obs in zip(runs, res):
            for i, (a, o) in enumerate(zip(r["acts"], obs)):
                if a["op"] != "chat" or "res" not in o:
                    continue
                if [x[0] for x in o["res"]] != ["c%d" % k for k in range(len(a["calls"]))] or o["requests"] != 2:
                    continue
                diff = []
                for p, v in sorted(o["diff"], key=lambda x: rank(x[0])):
                    diff.append(p + "=" + ("f" + known(v[1:]) if v[0] == "f" else v))
                rs = []
                for n, args, cwd in o["runs"]:
                    q = args if n == "rec" and args and "/" in args[0] else [n] + args
                    rs.append("|".join(q) + ("" if n == "mcp" or cwd == "{B}/w" else "@" + str(cwd)))
                obs[i] = dict(rc=o["rc"], res=[self.result(c, x[1]) for c, x in zip(a["calls"], o["res"])], asked=o["asked"], diff=";".join(diff), runs=rs)
        return res

    # ---- random chats
    def rpath(self, rng):
        b = rng.choice(["rel"] * 8 + ["abs"] * 4 + ["home", "VD", "VU", "blank"])
        x = rng.random()
        if b == "abs":
            cs = rng.choice([["w", "ig", "deep", "n.txt"], S + ["n.txt"]] + [list(k) for k in FILES] + [list(k) for k in LINKS] + DIRS + [S + ["new"], S + ["sk", "n.txt"], ["out", "new"]])
            if x < 0.25:
                cs = cs[:-1] + rng.choice([["..", cs[-1]], [".", cs[-1]]]) if len(cs) > 1 else cs
            return P(b, *cs)
        if b == "home":
            return P(b, *rng.choice([[".config", "dsh", "skills", "doc.md"], [".config", "dsh", "skills"], [".config"], ["new"], []]))
        if b == "blank":
            return P(b)
        cs = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            cs.append(rng.choice(["a.txt", "b.key", "d", "d", "in", "ig", "c.txt", "f.txt", "l1", "l2", "l3", "l4", "l7", "l8", "..", "..", ".", "new", "n.txt", "n.key", "deep", "out",
                                  "secret", "w", "od", "none"]))
        while cs and cs[-1] == ".":
            cs.pop()
        return P(b, *cs)

    def rcall(self, rng, mcp):
        x = rng.random()
        full = lambda p: p if p["b"] != "blank" else P("rel")
        if mcp and x < 0.35:
            return dict(t="mcp", x=rng.choice(["1", "a b", "é"]))
        if x < 0.28:
            return dict(t="edit", p=self.rpath(rng), c=rng.choice(["t1", "t2", "t3", "e", "big3", "near"]))
        if x < 0.45:
            return dict(t="read", p=self.rpath(rng))
        if x < 0.53 and not mcp:
            return dict(t="ls", p=full(self.rpath(rng)))
        if x < 0.61:
            g = rng.choice([dict(k="all", n=""), dict(k="ext", n=".txt"), dict(k="name", n=rng.choice(["a.txt", "b.key", "secret", "run", "n.txt"])), dict(k="two", n=rng.choice(["d/c.txt", "in/a.txt"]))])
            return dict(t="find", p=full(self.rpath(rng)) if rng.random() < 0.6 else P("rel"), g=g)
        if x < 0.7:
            return dict(t="grep", p=full(self.rpath(rng)) if rng.random() < 0.6 else P("rel"), q=rng.choice(QUERIES))
        if x < 0.72:
            return dict(t="bad", n=rng.choice(["write_file", "edit ", "Execute", "mcp__srv__nope"]), a="{}")
        if x < 0.74:
            return dict(t="bad", n=rng.choice(["edit", "read_file", "execute"]), a=rng.choice(["{}", "no", '{"path":7}', '{"command":""}', '{"command":"\'"}', "[]"]))
        return dict(t="exec", pr=self.rprog(rng), **{"as": self.rargs(rng)})

    def rprog(self, rng):
        return rng.choice([N("ra"), N("ra"), N("rb"), N("x3"), N("bash"), N("python3"), N("nosuch"), G("rel", "tool"), G("abs", *S, "run"), G("abs", *S, "sk", "go"),
                           G("abs", *S, "sk", "..", "run"), G("abs", *S, "l6"), G("rel", "l5"), G("abs", *S, "l8"), G("rel", "l8"), G("abs", "out", "evil"), G("abs", "w", "tool"), G("home", ".config", "dsh", "skills", "run"),
                           G("abs", *S, "none"), G("rel", "..", "out", "evil"), N("ra;rb"), G("abs", "out", "ra")])

    def rargs(self, rng):
        return [rng.choice(["1", "2", "a b", "", "-c", "-e", "-ec", "-x", "--c", "é'q", "a;b", "$(x)", "$HOME", "*", "`x`", "a\nb", "-W", ">f", "x&", "\\", "-Wc", "a|b", "--", "-Se"])
                for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]

    def random_histories(self):
        rng, out = self.rng, []
        for k in range(130 if self.quick else 1500):
            mcp = k % 6 == 0
            acts, ents = [], []
            dots = False
            for _ in range(14):
                x = rng.random()
                if x < 0.1:
                    if rng.random() < 0.5:
                        acts.append(dict(op="put", p=rng.choice([["w", "n.txt"], ["w", "d", "n.key"], ["w", "ig", "n.txt"], ["w", "a.txt"], S + ["n.txt"], ["out", "secret"], ["w", "d", "none"]]),
                                         t=rng.choice(["t1", "t2", "t3", "e", "big2", "big3", "x4096", "bin", "near"])))
                    else:
                        acts.append(dict(op="link", p=rng.choice([["w", "l8"], ["w", "d", "l8"], S + ["l8"], ["out", "l8"]]),
                                         to=rng.choice([["w", "l8"], ["w"], ["out", "secret"], ["w", "d", "in"], ["out", "l8"], ["out", "none", "x"], S, ["w", "none"], ["w", "ig", "f.txt"], ["w", "tool"], S + ["run"]])))
                elif x < 0.2:
                    acts.append(dict(op="rules", rs=rng.sample(RULES, rng.choice([0, 1, 1, 2, 3, 4]))))
                elif x < 0.36:
                    pr, q = self.rprog(rng), [a for a in self.rargs(rng) if "\n" not in a]
                    if "~" in prog_text(pr):
                        continue
                    e = dict(pr=pr, **{"as": q if rng.random() < 0.5 else []})
                    ents.append(e)
                    kind = rng.choice(["allow", "allow", "env", "file"])
                    if kind == "allow":
                        acts.append(dict(op="allow", e=e))
                    elif kind == "env":
                        acts.append(dict(op="env", v=rng.sample(ents, rng.randint(0, min(2, len(ents))))))
                    else:
                        bad = rng.random() < 0.1
                        acts.append(dict(op="file", bad=bad, v=[] if bad else rng.sample(ents, rng.randint(0, min(3, len(ents))))))
                else:
                    calls = [self.rcall(rng, mcp) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
                    for c in calls:
                        if c["t"] == "exec" and ents and rng.random() < 0.5:
                            e = rng.choice(ents)
                            c["pr"] = e["pr"]
                            if rng.random() < 0.6:
                                c["as"] = list(e["as"])
                            if rng.random() < 0.15:
                                c["as"] = c["as"] + ["1"]
                    acts.append(dict(op="chat", calls=calls, ans=[rng.random() < 0.7 for _ in calls]))
            out.append(dict(cfg=self.run_cfg(mcp=mcp), acts=acts))
        return out
