"""C14: words of a line and the arguments commands get (spec/Words.tla)."""
from vt.core import Check
from vt.tlc import tla

ORDER = "-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
SAFE = set(ORDER + "/:@%+,=")
FS0 = [("w", "a"), ("w", "ab"), ("w", "b.c"), ("w", "B"), ("w", "d"), ("w", "d", "x"), ("w", "d", "ya"), ("home", "a"), ("home", "h1")]
SYS0 = [("VE", "e v"), ("VC", "av")]
STUBS = ["av", "al", "bl"]


def P(k, t="", q=()):
    return dict(k=k, t=t, q=list(q))


def W(*ps):
    return dict(meta=False, ps=list(ps), pre="", cs=[])


def M(cs, pre=""):
    return dict(meta=True, ps=[], pre=pre, cs=cs)


def I(k, t="", o=()):
    return dict(k=k, t=t, o=list(o))


def esc(t, rng):
    out = ""
    for i, c in enumerate(t):
        plain = c.isalnum() or c in "_-./:@%+" or (c in ",=" and i)
        out += c if plain and not (rng and rng.random() < 0.1 and c.isascii() and c.isalpha()) else "\\" + c
    return out


def render_part(x, rng, first):
    if x["k"] == "p":
        return esc(x["t"], rng)
    if x["k"] == "s":
        return "'" + x["t"] + "'"
    if x["k"] == "v":
        return "$" + x["t"]
    if x["k"] == "t":
        return "~" + x["t"]
    return '"' + "".join("$" + e["t"] if e["v"] else "".join("\\" + c if c in '"\\$`' else c for c in e["t"]) for e in x["q"]) + '"'


def render_item(x):
    return {"lit": x["t"], "star": "*", "q": "?", "set": "[" + x["t"] + "]",
            "br": "{" + ",".join("".join(render_item(y) for y in o) for o in x["o"]) + "}"}[x["k"]]


def render_word(w, rng):
    if w["meta"]:
        return {"/": "{B}/w/"}.get(w["pre"], w["pre"]) + "/".join("".join(render_item(x) for x in c) for c in w["cs"])
    return "".join(render_part(x, rng, i == 0) for i, x in enumerate(w["ps"]))


def alts(c):
    if not c:
        return [""]
    if c[0]["k"] != "br":
        return [render_item(c[0]) + t for t in alts(c[1:])]
    return [t for o in c[0]["o"] for t in alts(o + c[1:])]


class Prop(Check):
    pid = "C14"
    spec = "Words"
    module = "words"
    walk_len = 30
    assumptions = ["names in folders begin with no dot", "patterns and alternatives are words of their own, not glued to quoted parts"]

    def consts(self, acts="{}"):
        return dict(Acts=acts, Home='"{B}/home"', Base='"{B}"', Order=tla(ORDER), Sys0="{%s}" % ", ".join(tla(list(e)) for e in SYS0),
                    Fs0="{%s}" % ", ".join(tla(list(f)) for f in FS0))

    def trace_consts(self):
        return self.consts()

    def run_cfg(self, init=None):
        return dict(dirs=["home", "w/d", "bin"], cwd="w", files=["/".join(f) for f in FS0 if f != ("w", "d")], stubs=["bin/" + n for n in STUBS],
                    unset=["VA", "VB", "VU"], env=[list(e) for e in SYS0] + [["PATH", "{B}/bin:/usr/bin:/bin"], ["HOME", "{B}/home"]], keys=[])

    def configs(self):
        lit = lambda t: I("lit", t)
        st = I("star")
        words = [W(P("p", "a b")), W(P("s", "$VA *")), W(P("d", "", [dict(v=False, t='x" '), dict(v=True, t="VA"), dict(v=True, t="VE")])), W(P("v", "VA")),
                 W(P("v", "VU")), W(P("v", "VE"), P("s", " "), P("p", "k=")), W(P("t", "")), W(P("t", "/a")), W(P("p", "a"), P("s", "")),
                 W(P("s", "")), W(P("p", "--o="), P("d", "", [dict(v=True, t="VA")])), M([[st]]), M([[lit("a"), st]], "./"), M([[st], [st]]), M([[lit("z"), st]]), M([[I("q")]], "~/"),
                 M([[I("set", "bB"), st]], "/"), M([[lit("x"), I("br", "", [[lit("1")], [], [lit("2"), st]])]]), M([[I("br", "", [[lit("a"), st], [lit("q")]]), I("br", "", [[], [lit("b")]])]]),
                 M([[lit("k"), I("br", "", [[lit("m"), I("br", "", [[lit("1")], [lit("2")]])], [lit("n")]]), lit("z")]])]
        cs = [[dict(k="cmd", n="av", ws=[w])] for w in words]
        cs += [[dict(k="alias", n="al", ws=[words[3]])], [dict(k="cmd", n="av", ws=[words[11], words[2]]), dict(k="alias", n="al", ws=[])]]
        a = ['[op |-> "line", cs |-> %s]' % tla(c) for c in cs]
        a += ['[op |-> "var", k |-> "VA", v |-> %s]' % tla(v) for v in ("1  *", "$VE", "")]
        a += ['[op |-> "alias", n |-> "al", ws |-> %s]' % tla(ws) for ws in ([words[3], words[11]], [words[7], words[1]])]
        a += ['[op |-> "touch", f |-> <<"w", "ac">>]', '[op |-> "touch", f |-> <<"w", "e", "x">>]', '[op |-> "rm", f |-> <<"w", "a">>]']
        return [dict(consts=self.consts("{%s}" % ",\n ".join(a)), properties=["OneEach", "Quoted"], max_steps=6000)]

    def conc(self, a):
        rng, op = self.rng, a["op"]
        lq = lambda v: '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
        if op == "var":
            return dict(op="lisp", line="(vset %s %s)" % (lq(a["k"]), lq(a["v"])))
        if op == "env":
            return dict(op="lisp", line="(setenv %s %s)" % (lq(a["k"]), lq(a["v"])))
        if op in ("touch", "rm"):
            return dict(op=op, d="{B}/" + "/".join(a["f"][:-1]), n=a["f"][-1])
        if op == "alias":
            t = " ".join(["av"] + [render_word(w, rng) for w in a["ws"]])
            if "'" not in t and not t.endswith("\\") and rng.random() < 0.5:
                return dict(op="line", line="alias '%s=%s'" % (a["n"], t))
            return dict(op="lisp", line="(alias %s %s)" % (lq(a["n"]), lq(t)))
        cmds = []
        for c in a["cs"]:
            n = dict(cmd=c["n"], alias=c["n"], var="$VC").get(c["k"])
            if c["k"] == "q":
                n = rng.choice(["'%s'", '"%s"', "\\%s", '%s""']) % c["n"]
            cmds.append(rng.choice([" ", " ", "  "]).join([n] + [render_word(w, rng) for w in c["ws"]]))
        t = cmds[0]
        for c in cmds[1:]:
            t += rng.choice([" ; ", "; ", " && "]) + c
        return dict(op="line", line=t)

    def execute(self, runs):
        conc = [dict(cfg=r["cfg"], acts=[self.conc(a) for a in r["acts"]]) for r in runs]
        res = self.run_harness(conc)
        for r, c, obs in zip(runs, conc, res):
            for i, (a, o) in enumerate(zip(r["acts"], obs)):
                if "rc" not in o:
                    continue
                if a["op"] != "line":
                    obs[i] = dict(rc=o["rc"])
                    continue
                obs[i] = dict(rc=o["rc"], runs=[dict(cmd=e["name"], args=e["args"]) for e in o["runs"]])
                a["line"] = c["acts"][i]["line"]
        return res

    # ---- random words
    def text(self, rng, bad=""):
        al = "abz09" * 3 + "nrtxeu" + "-_./:@=,+%" + " \t\"'\\$`*?[]{}()<>|&;#!~^é日"
        return "".join(c for c in (rng.choice(al) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))) if c not in bad)

    def rword(self, rng, meta=0.3):
        if rng.random() < meta:
            return self.rmeta(rng)
        ps, n = [], rng.choice([1, 1, 1, 2, 2, 3])
        for i in range(n):
            x = rng.random()
            if x < 0.3:
                t = self.text(rng, "" if i else "")
                ps.append(P("p", t or "a"))
            elif x < 0.5:
                t = self.text(rng, "'").rstrip("\\")
                ps.append(P("s", t))
            elif x < 0.75:
                q = []
                for _ in range(rng.choice([0, 1, 2, 3])):
                    if rng.random() < 0.5:
                        q.append(dict(v=True, t=rng.choice(["VA", "VB", "VE", "VU"])))
                    else:
                        t = self.text(rng)
                        if q and q[-1]["v"] and (t[:1].isalnum() or t[:1] in "_["):
                            t = "." + t
                        q.append(dict(v=False, t=t))
                ps.append(P("d", "", q))
            elif x < 0.93 or i:
                ps.append(P("v", rng.choice(["VA", "VB", "VE", "VU"])))
            else:
                ps.append(P("t", rng.choice(["", "/a", "/x"])))
        # a variable ends where its name does; ~ stands alone
        out = []
        for x in ps:
            if x["k"] == "t" and len(ps) > 1:
                continue
            if out and out[-1]["k"] == "v" and x["k"] == "p" and (x["t"][0].isalnum() or x["t"][0] in "_["):
                x = P("p", "." + x["t"])
            if out and out[-1]["k"] == "p" and x["k"] == "p":
                continue
            out.append(x)
        return W(*(out or [P("s", "")]))

    def rmeta(self, rng):
        names = "abxyzdB1c."

        def item(deep=2):
            x = rng.random()
            if x < 0.35:
                return I("star")
            if x < 0.45:
                return I("q")
            if x < 0.55:
                return I("set", "".join(sorted(set(rng.choice("abdBxy1") for _ in range(rng.randint(1, 3))))))
            if x < (0.7 if deep > 1 else 0.65) and deep:
                return I("br", "", [[item(deep - 1) for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(rng.randint(2, 3))])
            return I("lit", "".join(rng.choice(names[:-1]) for _ in range(rng.randint(1, 2))))
        cs = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            c = [item() for _ in range(rng.randint(1, 3))]
            d = []
            for x in c:
                if d and d[-1]["k"] == "star" and x["k"] == "star":
                    continue
                d.append(x)
            cs.append(d)
        if len(cs) == 2 and rng.random() < 0.5:
            cs[0] = [I("lit", "d")]
        w = M(cs, rng.choice(["", "", "", "./", "~/", "/"]))
        if not any(x["k"] != "lit" for c in cs for x in c):
            cs[-1].append(I("star"))
        if len(cs) > 1:      # every level of a pattern has a name
            for i in range(len(cs)):
                if "" in alts(cs[i]):
                    cs[i] = cs[i] + [I("star")]
        elif w["pre"] and "" in alts(cs[0]):
            w["pre"] = ""
        for c in cs:       # ** is another pattern
            if any("**" in a for a in alts(c)):
                return self.rmeta(rng)
        return w

    def random_histories(self):
        rng, out = self.rng, []
        vals = ["1", "", "a b", "*", "$VB", "~", "'x'", 'q"q', "a\\b", "{a,b}", "a;av x", "|", "# c", "  ", "é日", "-n", "`x`", "$(av 1)", "x=y", "&", "a\tb", ">f", "[a]", "?"]
        for _ in range(150 if self.quick else 700):
            acts = []
            for _ in range(22):
                x = rng.random()
                if x < 0.1:
                    acts.append(dict(op="var", k=rng.choice(["VA", "VB"]), v=rng.choice(vals)))
                elif x < 0.14:
                    acts.append(dict(op="env", k=rng.choice(["VE", "VB"]), v=rng.choice(vals)))
                elif x < 0.2:
                    ws = [self.rword(rng) for _ in range(rng.choice([0, 1, 2]))]
                    if ws and not ws[-1]["meta"] and ws[-1]["ps"][-1]["t"][-1:].isspace():
                        ws.append(W(P("s", "")))       # an alias does not end with a blank
                    acts.append(dict(op="alias", n=rng.choice(["al", "bl"]), ws=ws))
                elif x < 0.26:
                    acts.append(dict(op="touch", f=rng.choice([["w", rng.choice(["ac", "b1", "x-y", "c.b", "zz"])], ["w", rng.choice("de"), rng.choice(["x1", "by"])], ["home", "hb"]])))
                elif x < 0.3:
                    acts.append(dict(op="rm", f=rng.choice([["w", "a"], ["w", "ab"], ["w", "B"], ["w", "ac"], ["w", "d", "x"], ["home", "a"]])))
                else:
                    cs = []
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        k = rng.choice(["cmd"] * 6 + ["alias"] * 3 + ["q", "var"])
                        cs.append(dict(k=k, n="av" if k in ("cmd", "var") else rng.choice(["al", "bl"]), ws=[self.rword(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]))
                    acts.append(dict(op="line", cs=cs))
            out.append(dict(cfg=self.run_cfg(), acts=acts))
        return out
