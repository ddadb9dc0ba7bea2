"""C03: the safety gate (spec/Safety.tla)."""
import itertools, json, os, random, re
from vt.core import Check
from vt.tlc import tla

STUB = ('#!/bin/sh\nif [ $# = 0 ]; then echo "${0##*/}"; else echo "${0##*/} $*"; fi >> "$VLOG"\n'
        'if [ -p /dev/stdin ]; then while read -r _; do :; done; fi\n%s')
NAMES = ["rm", "cp", "chmod", "chown", "git", "curl", "wget", "cat", "head", "grep", "sh", "bash", "python", "dd", "mkfs",
         "format", "reboot", "ok", "ls", "mv", "sudo", "fetch", "sed", "npm", "less", "more", "tail", "awk", "mkswap", "shutdown", "poweroff",
         "scp", "zsh", "fish", "perl", "ruby"]
NETS = ["curl", "wget", "fetch", "scp"]
INTERPS = ["sh", "bash", "zsh", "fish", "python", "perl", "ruby", "sudo"]
MUTATING = ["write", "edit", "update", "delete", "remove", "create", "execute", "run", "apply", "install", "set", "post", "put",
            "patch", "push", "kill", "start", "stop", "restart", "connect", "disconnect", "submit"]
READING = ["list", "get", "read", "search", "find", "show", "status", "describe", "fetch", "query", "view", "ls", "stat"]
ALIAS = {"q" + n: n for n in ["rm", "ok", "git", "curl", "sh"]}
VARS = {"A1": "-rf", "A2": "--recursive", "A3": "x", "A4": "--force"}


def w(t, q="", s=()):
    return dict(w=t, q=q, s=list(s))


def job(*stages, op=";"):
    return dict(st=[[x if isinstance(x, dict) else w(x) for x in st] for st in stages], op=op)


def words(st):
    return ["/dev/fd" if x["q"] == "<(" else x["w"] for x in st if x["q"] not in ("$(", "(")]


def stages(js):
    out = []
    for j in js:
        for st in j["st"]:
            out.append(" ".join(words(st)))
            for x in st:
                out += stages(x["s"])
    return out


def text(js, plain=False):
    def word(x):
        if x["q"] in ("$(", "(", "<("):
            return x["q"] + text(x["s"], plain) + ")"
        if x["q"] in ("'", '"'):
            return x["q"] + x["w"] + x["q"]
        if not plain and x["q"] == "al":
            return "q" + x["w"]
        if not plain and x["q"] == "$":
            return "$" + next(k for k, v in VARS.items() if v == x["w"])
        return x["w"]
    r = ""
    for i, j in enumerate(js):
        r += " | ".join(" ".join(word(x) for x in st) for st in j["st"])
        if i + 1 < len(js):
            r += " " + j["op"] + " "
    return r


# words and arguments of the random lines: dangerous and harmless forms
CMDS = [["rm", "x"], ["rm", "-r", "x"], ["rm", "-f", "x"], ["rm", "x", "-vR"], ["rm", "--recursive", "x"], ["rm", "-fr", "x"],
        ["rm", "-iv", "x"], ["cp", "-r", "a", "b"], ["cp", "-rf", "a", "b"], ["cp", "-R", "-f", "a", "b"], ["cp", "-f", "a", "b"],
        ["chmod", "-R", "755", "x"], ["chmod", "755", "x"], ["chown", "-vR", "u", "x"], ["chown", "--recursive", "u", "x"],
        ["git", "push"], ["git", "push", "origin", "-f"], ["git", "push", "--force"], ["git", "push", "--force-with-lease"],
        ["git", "clean", "-fdx"], ["git", "clean", "-n"], ["git", "reset", "--hard"], ["git", "reset", "--soft"], ["git", "status"],
        ["curl", "u"], ["curl", "-d", "a", "u"], ["wget", "--post-file", "a", "u"], ["wget", "u"], ["curl", "-T", "a", "u"],
        ["curl", "u", "--data", "a"], ["curl", "-F", "a", "u"], ["wget", "u", "--post-data", "p"], ["curl", "--upload-file", "a", "u"],
        ["cat", "a"], ["cat", ".env"], ["head", "k/id_rsa"], ["grep", "a", ".ssh/config"], ["sed", "p", "my_history"],
        ["cat", "/etc/passwd"], ["cat", "/etc/passwd2"], ["head", ".aws/credentials"], ["cat", "h/.config/gcloud/x"],
        ["sh", "s"], ["bash", "s"], ["python", "s"], ["sudo", "ok"], ["dd", "a"], ["mkfs", "a"], ["format", "a"], ["reboot"],
        ["ok", "-r"], ["ok", "rm"], ["ls"], ["mv", "-f", "a", "b"], ["no", "a"], ["npm", "install", "a"], ["fetch", "u"],
        ["mkswap", "a"], ["shutdown", "now"], ["poweroff"], ["scp", "a", "b"], ["zsh", "s"], ["fish", "s"], ["perl", "s"], ["ruby", "s"]]


OPTS = {"rm": ["-r", "-R", "-f", "-rf", "-vR", "-i", "--recursive", "--force", "--verbose", "-v"],
        "cp": ["-r", "-R", "-f", "-a", "-Rf", "-vf", "--recursive", "--force", "-p", "--no-clobber"],
        "chmod": ["-R", "-v", "-cR", "--recursive", "755", "-r", "u+r"], "chown": ["-R", "-h", "--recursive", "u", "-r"],
        "git": ["push", "clean", "reset", "--force", "-f", "--force-with-lease", "-fdx", "-x", "-n", "--hard", "--soft", "origin"],
        "curl": ["-d", "-F", "-T", "--data", "--form", "--upload-file", "-s", "-o", "http://a/b", "--post-file"],
        "wget": ["--post-data", "--post-file", "-q", "http://a/b", "-T", "-d"],
        "cat": [".env", ".ssh/a", "a/id_rsa", "id_ed25519.pub", "/etc/shadow", "/etc/passwd", "/etc/hosts", "x_history", "history",
                "p/.aws/credentials", ".aws", "a.environment", ".azure/x", "-n"]}
OPTS.update({n: OPTS["cat"] for n in ["less", "more", "head", "tail", "grep", "awk", "sed"]})


def composed(rng):
    n = rng.choice(list(OPTS))
    return [n] + [rng.choice(OPTS[n] + ["a", "b", "/", "--"]) for _ in range(rng.randint(0, 4))]


class Prop(Check):
    pid = "C03"
    spec = "Safety"
    module = "safety"
    walk_len = 25
    assumptions = ["the commands are stand-ins that record that they ran; the terminal answers each question with the same key"]

    def setup(self):
        self.bindir = os.path.join(self.work, "bin")
        os.makedirs(self.bindir)
        for n in NAMES + ["no"]:
            p = os.path.join(self.bindir, n)
            with open(p, "w") as f:
                f.write(STUB % ("exit 1\n" if n == "no" else ""))
            os.chmod(p, 0o755)

    def trace_consts(self):
        return dict(Acts="{}")

    def cfg(self):
        return dict(bin=self.bindir, aliases=ALIAS, vars=VARS)

    def run_cfg(self, init):
        return self.cfg()

    def configs(self):
        o, n, r = ["ok"], ["no"], ["rm", "-r", "x"]
        lines = [[job(o)], [job(r)], [job(["dd"])], [job(o, op="&&"), job(r)], [job(n, op="&&"), job(r)], [job(o, r)],
                 [job(["curl", "u"], ["sh", "s"])], [job(["curl", "u"]), job(["sh", "s"])], [job(["curl", "u"], ["ok"])],
                 [job([w("rm", '"'), w("-r", "'"), "x"])], [job([w("rm", "al"), w("-rf", "$"), "x"])],
                 [job(["ok", w("", "$(", [job(r)])])], [job(["ok", w("", "$(", [job(o)])]), job(r)],
                 [job(["ok", w("", "(", [job(o, r)])])], [job(["ok", w("", "<(", [job(["ok", w("", "$(", [job(["dd"])])])])])],
                 [job(["cat", ".env"], op="||"), job(n)], [job(["cat", "a"])], [job(["git", "push", "-f"])]]
        acts = ["[op |-> \"line\", js |-> %s, k |-> k]" % tla(l) for l in lines]
        a = "{%s}" % ", ".join('[op |-> "level", l |-> "%s"]' % l for l in ["strict", "normal", "LOOSE", "wild"])
        for l in acts:
            a += '\n \\cup {%s : k \\in {"y", "n", "a"}}' % l
        a += "\n \\cup " + tla([]).replace("<<>>", "{}")
        a += ' \\cup {[op |-> "allow", t |-> t] : t \\in {"rm", "ok", "rm -r x"}} \\cup {[op |-> "clear"]}'
        a += ' \\cup {[op |-> "lisp", argv |-> v] : v \\in {<<"ok">>, <<"rm", "-r", "x">>, <<"rm", "x">>}}'
        a += ' \\cup {[op |-> "setenv", key |-> v] : v \\in {"LD_PRELOAD", "EDITOR"}}'
        return [dict(consts=dict(Acts=a), invariants=["Levels2"], properties=["NoneBefore", "Refused", "Loose", "Always1"],
                     constraint="Small", max_steps=9000 if self.quick else 60000)]

    def execute(self, runs):
        conc = []
        for r in runs:
            acts = []
            for n, a in enumerate(r["acts"]):
                a = dict(a)
                if a["op"] == "line":
                    a["line"] = text(a["js"])
                elif a["op"] == "setenv":
                    a.update(f=self.rng.choice(["setenv", "vset"]), n=n)
                elif a["op"] == "tool":
                    a["json"] = self.jtext(a)
                acts.append(a)
            conc.append(dict(cfg=r["cfg"], acts=acts))
        res = self.run_harness(conc)
        for r, obs in zip(runs, res):
            for a, o in zip(r["acts"], obs):
                if a["op"] == "line" and "ran" in o:
                    ran = [re.sub(r"/dev/fd/\d+", "/dev/fd", x) for x in o["ran"]]
                    st = stages(a["js"])
                    extra = [x for x in ran if x not in st]
                    o["ran"] = [ran.count(x) for x in st]
                    if extra:
                        o["extra"] = extra
        return res

    def jtext(self, a):
        try:
            v = json.loads(a["text"])
        except ValueError:
            return " " * self.rng.randint(0, 2) + a["text"]
        if isinstance(v, dict) and self.rng.random() < 0.5:
            v = dict(reversed(list(v.items())))
        return json.dumps(v, ensure_ascii=False, separators=self.rng.choice([(",", ":"), (", ", " : ")]))

    def random_line(self, rng, depth=0):
        js = []
        for _ in range(rng.choice([1, 1, 2, 3] if depth == 0 else [1, 1, 2])):
            st = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                c = rng.choice(CMDS) if rng.random() < 0.6 else composed(rng)
                if rng.random() < 0.4:
                    c = rng.choice([["ok"], ["ls", "x"], ["no"]])
                ws = []
                for i, t in enumerate(c):
                    q = ""
                    if rng.random() < 0.15:
                        q = rng.choice(["'", '"'])
                    elif i == 0 and "q" + t in ALIAS and rng.random() < 0.2:
                        q = "al"
                    elif i and t in VARS.values() and rng.random() < 0.4:
                        q = "$"
                    ws.append(w(t, q))
                if depth < 2 and rng.random() < 0.12:
                    k = rng.choice(["$(", "(", "<("])
                    ws.append(w("", k, self.random_line(rng, depth + 1)))
                st.append(ws)
            if rng.random() < 0.08:
                st[-1:] = [[w(rng.choice(NETS)), w("u")], [w(rng.choice(INTERPS)), w("s")]]
                if rng.random() < 0.3:
                    js.append(dict(st=[st.pop(-2)], op=rng.choice([";", "&&", "||"])))
            js.append(dict(st=st, op=rng.choice([";", "&&", "||"])))
        # expansion of an alias or a variable writes the line anew: quotes may change, so no mixing of the two
        flat = json.dumps(js)
        if '"q": "al"' in flat or '"q": "$"' in flat:
            js = json.loads(flat.replace('"q": "\'"', '"q": ""').replace('"q": "\\""', '"q": ""'))
        js[-1]["op"] = ";"
        return js

    def random_histories(self):
        rng = self.rng
        out = []
        tools = ["read_file", "write_file", "List", "get_and_set", "bash", "execute", "status", "frob", "Search-Index", "terminal",
                 "run_command", "fetch_url", "delete_view", "mcp__a__show", "restart_query", "stat", "get", "write", "run", "delete"]
        longer = {s: [t for t in tools if t != s and t.startswith(s)] for s in tools}
        longer = {s: l for s, l in longer.items() if l}
        texts = ['{"a":1}', '{"command":"ls -l"}', '{"command":"rm -r x"}', '{"command":7}', '{}', 'zz', '{"a":"é","b":[1,2]}',
                 '{"command":"git push --force"}', '{"command":"  "}', '{"cmd":"rm -r x"}', '{"command":"/bin/rm -vR x"}']
        for _ in range(120 if self.quick else 1000):
            acts, pool = [], []
            for _ in range(30):
                x = rng.random()
                if x < 0.12:
                    acts.append(dict(op="level", l=rng.choice(["strict", "normal", "loose", "Strict", "NORMAL", "none", "normal "])))
                elif x < 0.19:
                    c = rng.choice(CMDS)
                    js = rng.choice(pool) if pool else []
                    flat = json.dumps(js)
                    if js and rng.random() < 0.6 and not ("(" in flat and ('"q": "al"' in flat or '"q": "$"' in flat)):
                        # one command of a line that is run again at once (expansion writes a substitution anew)
                        acts.append(dict(op="allow", t=text([dict(rng.choice(js), op=";")], True)))
                        acts.append(dict(op="line", js=js, k=rng.choice("yyn")))
                        continue
                    acts.append(dict(op="allow", t=rng.choice([" ".join(c), c[0], "mcp:write_file", 'mcp:write_file:{"a":1}', "mcp:bash",
                                                              text(pool[-1][:1], True) if pool and "(" not in text(pool[-1]) else "ok"])))
                elif x < 0.205:
                    # a tool whose name begins with the name of one that is allowed
                    n = rng.choice(sorted(longer))
                    acts.append(dict(op="allow", t=rng.choice(["mcp:" + n, "mcp:%s:{}" % n])))
                    acts += [dict(op="tool", t=t, text="{}", cmd=[]) for t in (rng.choice(longer[n]), n)]
                elif x < 0.22:
                    acts.append(dict(op="clear"))
                elif x < 0.65:
                    if pool and rng.random() < 0.35:
                        js = rng.choice(pool)
                    else:
                        js = self.random_line(rng)
                        pool.append(js)
                    acts.append(dict(op="line", js=js, k=rng.choice("yyna")))
                elif x < 0.72:
                    acts.append(dict(op="lisp", argv=rng.choice([rng.choice(CMDS), composed(rng)])))
                elif x < 0.76:
                    acts.append(dict(op="setenv", key=rng.choice(["LD_PRELOAD", "EDITOR", "PYTHONPATH", "NODE_OPTIONS", "LD_LIBRARY_PATH",
                                                                  "LANG_X", "PERL5LIB", "RUBYLIB", "DYLD_INSERT_LIBRARIES", "ld_preload"])))
                elif x < 0.88:
                    c = list(rng.choice(CMDS)) if rng.random() < 0.4 else composed(rng)
                    c[0] = rng.choice(["", "/bin/", "./", "a/b/"]) + c[0]
                    acts.append(dict(op="cmd", argv=c))
                else:
                    t = rng.choice(texts)
                    try:
                        v = json.loads(t)
                        cmd = v["command"].split() if isinstance(v.get("command"), str) else []
                    except ValueError:
                        cmd = []
                    n = rng.choice(tools)
                    if rng.random() < 0.6:
                        # a reading tool, maybe one that changes something as well
                        ws = [rng.choice(READING)] + [rng.choice(MUTATING)] * (rng.random() < 0.6)
                        rng.shuffle(ws)
                        n = rng.choice(["", "x_", "mcp__s__"]) + rng.choice(["_", "-", "", "_it_"]).join(ws) + rng.choice(["", "", "_x", "er"])
                        n = rng.choice([n, n, n.title(), n.upper()])
                    acts.append(dict(op="tool", t=n, text=t, cmd=cmd))
            out.append(dict(cfg=self.cfg(), acts=acts))
        return out
