"""C17: the configuration file (spec/Config.tla)."""
import random
from vt.core import Check
from vt.tlc import tla

KEYS = ["a", "b", "GG", "length"]
BASE = ["/vb1", "/vb2"]


def q(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'


def boolean(rng, on):
    return rng.choice(["T", "t"] if on else ["F", "f", "NIL"])


BAD = ['(no-such-function 1)', '(alias "a")', '(safety-level "wild")', '(chat-execute-add 7)', '(set-suggestion-mode wild)', '(car 5)',
       '(set nosuchsymbol 1)', '(abbr "a" "b" "c")', '("x" 1)', 'nosuchsymbol', '(register-action "a" "b")', '(add-hook 7 "x")',
       '(set-auto-fix-enabled)', '(let ((q 1)) (nosuch q))', '(when T (nosuch))', '(mcp-add-stdio 7 "x")', '(setenv "a")',
       '(begin (defun zz-f (x) (nosuch x)) (zz-f 1))', '(map nosuch (list 1 2))', '(throw-it)']
SYNTAX = ['(alias "zz" "1"', '(alias "zz" "1"))', ')', '(alias "zz', "(let ((q 1)", '( alias "zz" "1" ) ) (alias "yy" "2")']


def stmt(s, rng):
    k, v = s.get("k", ""), s.get("v", "")
    o = s["s"]
    if o in ("alias", "abbr", "vset", "setenv"):
        return "(%s %s %s)" % (o, q(k), q(v))
    if o == "define":
        return "(define %s %s)" % (k, q(v))
    if o == "set":
        return "(set %s %s)" % (k, q(v))
    if o == "defun":
        return rng.choice(["(defun %s () %s)", "(define %s (lambda () %s))", "(fn %s () %s)", "(defun %s () 1 %s)"]) % (k, q(v))
    if o == "action":
        return '(register-action %s %s "vf")' % (q(k), q(v))
    if o == "hook":
        return "(add-hook (quote %s-hooks) %s)" % (k, q(v)) if rng.random() < 0.5 else "(add-hook '%s-hooks %s)" % (k, q(v))
    if o == "path":
        return "(add_path %s)" % q(v)
    if o == "setpath":
        return rng.choice(['(setenv "PATH" %s)' % q(k + ":" + v), '(setenv "PATH" %s %s)' % (q(k), q(v))])
    if o == "allow":
        return "(chat-execute-add %s)" % " ".join(q(t) for t in s["vs"])
    if o == "allowclear":
        return "(chat-execute-clear)"
    if o == "mcp":
        return {"stdio": '(mcp-add-stdio %s "vnomcp" (list "x"))', "sse": '(mcp-add-sse %s "http://127.0.0.1:9/x")',
                "http": '(mcp-add-http %s "http://127.0.0.1:9/x")'}[v] % q(k)
    if o == "mcpclear":
        return "(mcp-clear)"
    if o == "pref":
        b = boolean(rng, s["on"])
        if k == "ghost":
            return "(set-suggestion-mode '%s)" % ("ghost" if s["on"] else "off")
        return {"pair": "(pref-auto-pair %s)", "notify": "(pref-auto-notify %s)", "expl": "(pref-ai-explanation %s)",
                "ai": "(set-suggestion-ai-enabled %s)", "fix": "(set-auto-fix-enabled %s)"}[k] % b
    if o == "thr":
        return "(set-notify-config %s %d)" % (boolean(rng, s["on"]), s["n"])
    if o == "level":
        return "(safety-level %s)" % q(v)
    if o == "auto":
        return {"cmd": '(autocomplete %s "vcmd")', "list": "(autocomplete %s (x y))"}[v] % k
    if o == "direnv":
        return "(allow-direnv %s)" % q(v)
    if o == "zx":
        return '(setenv "Z_EXCLUDE" %s)' % q(k + ":" + v)
    if o == "loader":
        return '(setenv "%s" "x")' % rng.choice(["LD_PRELOAD", "PYTHONPATH", "NODE_OPTIONS"])
    if o == "bad":
        return BAD[s["n"] % len(BAD)]
    return SYNTAX[s["n"] % len(SYNTAX)]


def wrap(s, rng):
    t = stmt(s, rng)
    if s["s"] not in ("syntax", "define", "defun"):
        x = rng.random()
        if x < 0.1:
            return "(begin 1 %s)" % t
        if x < 0.2:
            return "(when T %s)" % t
        if x < 0.3:
            return "(let ((zq 1)) %s)" % t
        if x < 0.35:
            return '(if (== 1 2) (nosuch) %s)' % t
    return t


def text(stmts, rng):
    out = ""
    for s in stmts:
        if rng.random() < 0.2:
            out += ";; a (comment \" here\n"
        out += wrap(s, rng) + rng.choice(["\n", "\n\n", " ", "\n  "])
    return out + rng.choice(["", "\n", ";; end", ";; ) (\n", ";"])


class Prop(Check):
    pid = "C17"
    spec = "Config"
    module = "config"
    walk_len = 25
    assumptions = ["MCP servers are only configured, not connected"]

    def trace_consts(self):
        return dict(Acts="{}", Keys=tla(set(KEYS)), Base=tla(BASE))

    def run_cfg(self, init):
        return dict(base=BASE, keys=KEYS, builtin=False)

    def configs(self):
        z = lambda **k: k
        st = [z(s="alias", k="a", v="1"), z(s="define", k="a", v="1"), z(s="set", k="a", v="2"), z(s="defun", k="length", v="3"),
              z(s="path", v="/p"), z(s="allow", vs=["x"]), z(s="level", v="loose"), z(s="loader"), z(s="auto", k="a", v="cmd"),
              z(s="hook", k="pre-exec", v="h"), z(s="pref", k="pair", on=True)]
        files = [[x] for x in st] + [[x, z(s="bad", n=n)] for n, x in enumerate(st)] + [[st[0], z(s="syntax", n=1)], [],
                 [z(s="mcp", k="a", v="sse")], [z(s="mcp", k="b", v="http"), z(s="mcp", k="b", v="stdio")], [z(s="mcp", k="b", v="sse"), z(s="bad", n=0)]]
        a = "{}"
        for x in st + [z(s="bad", n=1), z(s="mcpclear")]:
            a += '\n \\cup {[op |-> "eval", q |-> %s]}' % tla(x)
        for f in files:
            a += '\n \\cup {[op |-> "reload", missing |-> FALSE, q |-> %s]}' % tla(f)
        a += '\n \\cup {[op |-> "reload", missing |-> TRUE, q |-> <<>>], [op |-> "start", missing |-> FALSE, q |-> %s], [op |-> "start", missing |-> FALSE, q |-> %s]}' % (tla(files[0]), tla(files[12]))
        return [dict(consts=dict(Acts=a, Keys=tla({"a", "b", "GG", "length"}), Base=tla(BASE)), constraint="Small",
                     properties=["FailedChangesNothing", "FailedStartIsPlain", "FileServersOnly"],
                     max_steps=3000 if self.quick else 20000)]

    def execute(self, runs):
        conc = []
        for n, r in enumerate(runs):
            rng = random.Random(self.seed * 7919 + n)
            acts = []
            for a in r["acts"]:
                acts.append(dict(op=a["op"], missing=a.get("missing", False), text=wrap(a["q"], rng) if a["op"] == "eval" else text(a["q"], rng)))
            conc.append(dict(cfg=r["cfg"], acts=acts))
        return self.run_harness(conc)

    def random_stmt(self, rng, session=False, mcp=True):
        k, v = rng.choice(KEYS), rng.choice(["v1", "v 2", 'é"x', "", "a\\b", "~", "(x)", "v;3"])
        o = rng.choice(["alias", "abbr", "vset", "setenv", "define", "defun", "set", "action", "hook", "path", "setpath", "allow", "allowclear",
                        "mcp", "mcp", "mcpclear", "pref", "thr", "level", "auto", "direnv", "zx", "loader"])
        if o in ("define", "defun", "set"):
            return dict(s=o, k=k, v="s" + v)
        if o == "hook":
            return dict(s=o, k=rng.choice(["pre-exec", "post-exec", "on-chdir", "on-chdir", "nosuch"]), v=v)
        if o in ("path", "direnv"):
            return dict(s=o, v=rng.choice(["/p1", "/p 2", "/é"]))
        if o in ("setpath", "zx"):
            return dict(s=o, k=rng.choice(["/p1", "/q"]), v=rng.choice(["/r", "/s"]))
        if o == "allow":
            return dict(s=o, vs=[rng.choice(["x", "y z", "é"]) for _ in range(rng.randint(1, 3))])
        if o == "mcp":
            if session or not mcp:
                return dict(s="mcpclear")
            return dict(s=o, k=k, v=rng.choice(["stdio", "sse", "http"]))
        if o == "pref":
            return dict(s=o, k=rng.choice(["pair", "notify", "expl", "ghost", "ai", "fix"]), on=rng.random() < 0.5)
        if o == "thr":
            return dict(s=o, on=rng.random() < 0.5, n=rng.randint(0, 99))
        if o == "level":
            return dict(s=o, v=rng.choice(["strict", "normal", "loose", "loose", "wild"]))
        if o == "auto":
            return dict(s=o, k=rng.choice(["a", "b", "GG"]), v=rng.choice(["cmd", "list"]))
        if o in ("allowclear", "mcpclear", "loader"):
            return dict(s=o)
        return dict(s=o, k=k, v=v)

    def random_file(self, rng, mcp):
        f = [self.random_stmt(rng, mcp=mcp) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        f = [s for s in f if rng.random() < 0.8 or s["s"] not in ("loader", "set", "level")]
        if rng.random() < 0.45:
            bad = dict(s=rng.choice(["bad", "bad", "syntax"]), n=rng.randrange(60))
            f.insert(rng.choice([len(f), len(f), rng.randint(0, len(f))]), bad)
        return f

    def random_histories(self):
        rng = self.rng
        out = []
        for _ in range(90 if self.quick else 900):
            builtin = rng.random() < 0.25
            acts = []
            for _ in range(22):
                x = rng.random()
                if x < 0.4:
                    s = self.random_stmt(rng, session=True)
                    if rng.random() < 0.15:
                        s = dict(s="bad", n=rng.randrange(20))
                    acts.append(dict(op="eval", q=s))
                elif x < 0.93:
                    acts.append(dict(op="reload", missing=rng.random() < 0.07, q=self.random_file(rng, not builtin)))
                    if acts[-1]["missing"]:
                        acts[-1]["q"] = []
                else:
                    acts.append(dict(op="start", missing=False, q=self.random_file(rng, not builtin)))
            out.append(dict(cfg=dict(base=BASE, keys=KEYS, builtin=builtin), acts=acts))
        return out
