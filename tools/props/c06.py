"""C06: secrets and the history (spec/Secrets.tla)."""
import json
import re
from vt.core import Check
from vt.tlc import tla


def wd(k, p, v="", r="", q=""):
    return dict(k=k, p=p, v=v, r=r, q=q)


def quoted(v, q, pre=""):
    """the shell text of pre followed by the value v"""
    if q == "esc":
        return pre + v.replace(" ", "\\ ")
    if q == "mix":
        h = 1
        return pre + v[:h].replace(" ", "\\ ") + '"' + v[h:] + '"'
    if q == "mix2":
        h = 1
        return pre + "'" + v[:h] + "'" + v[h:].replace(" ", "\\ ")
    if q in ("w'", 'w"'):
        return q[1] + pre + v + q[1]
    if q in ("'", '"'):
        return pre + q + v + q
    return pre + v


def render(x):
    if x["k"] == "w":
        return x["p"]
    if x["k"] == "asg":
        return quoted(x["v"], x["q"], x["p"] + "=")
    if x["k"] == "opt":
        return x["p"] + quoted(x["v"], x["q"])
    if x["k"] == "hdr":
        return "'" + x["p"] + x["v"] + "'"
    t = x["p"] + x["v"] + x["r"]
    return x["q"] + t + x["q"]


def norm(t):
    return re.sub(r"\*\*\*\S*", "***", re.sub(r"[\\'\"]", "", t))


KEYS = ["API_KEY", "api_key", "MY_TOKEN", "db_password", "SESSIONID", "author", "X_KEY", "GH_TOKEN_2", "mySecret", "PRIVATE_X",
        "MYSQL_PASSWD", "passphrase", "COOKIE_JAR", "Credentials", "ACCESS_KEYS", "x_private", "auth", "API_KEYRING", "_KEY", "oauth2",
        "HOME", "EDITOR", "KEY", "KEYS", "TOK", "SECRE", "PASS", "PWD2", "COOKI", "ACCESS", "API", "CRED", "SESS", "PRIV", "MONKEY", "passw", "PATH2", "CUST_A", "cust_b", "MYK_1", "deployX", "zeta", "a1"]
TAIL = "-kept-in-the-session"
PATS = ["zeta", "^deploy", "MYK", "q9"]
WORDS = ["a", "zeta9", "xzeta", "deploy", "a-deploy", "q9", "b.q9.c", "MYK", "--verbose", "-x", "git", "é", "token", "password", "--tokens", "--password-file", "-port", "--user=me",
         "PASSWORD", "Authorization:", "Bearer", "; vnone", "| vnone", "&& vnone", "|| vnone", "> vout", "http://a/b?x=1", "http://a/b?tok=1"]


class Prop(Check):
    pid = "C06"
    spec = "Secrets"
    module = "secrets"
    walk_len = 25
    assumptions = ["patterns are literal texts, at the beginning or anywhere"]

    def trace_consts(self):
        return dict(Acts="{}")

    def run_cfg(self, init):
        return dict(bg=self.rng.random() < 0.3)

    def configs(self):
        w = lambda *a, **k: {x: y for x, y in wd(*a, **k).items()}
        lines = [[w("w", "ls")], [w("w", "zeta9")], [w("w", "x"), w("asg", "API_KEY", "S e c")], [w("asg", "cust", "S1"), w("w", "x")],
                 [w("w", "x"), w("opt", "--token ", "S e")], [w("w", "x"), w("hdr", "Authorization: Bearer ", "S2")],
                 [w("w", "x"), w("url", "http://a/b?token=", "S3", "&y=2")], [w("asg", "HOME", "S4")],
                 [w("asg", "zeta", "S5"), w("opt", "-p ", "S6"), w("w", "deploy")]]
        a = "{[op |-> \"mode\", v |-> v] : v \\in {\"skip\", \"Redact\", \"none\", \"wild\"}}"
        for l in lines:
            for q in ["'", "esc"] if any(x["k"] in ("asg", "opt") for x in l) else [""]:
                l2 = [dict(x, q=q) for x in l]
                a += '\n \\cup {[op |-> "line", w |-> %s, save |-> TRUE]}' % tla(l2)
        a += '\n \\cup {[op |-> "line", w |-> %s, save |-> FALSE]}' % tla(lines[0])
        a += '\n \\cup {[op |-> "kw", v |-> v] : v \\in {"CUST"}} \\cup {[op |-> "pat", v |-> v, bad |-> FALSE] : v \\in {"zeta", "^deploy"}}'
        a += '\n \\cup {[op |-> "pat", v |-> "(", bad |-> TRUE], [op |-> "clear"], [op |-> "restart"]}'
        a += '\n \\cup {[op |-> "set", k |-> k, v |-> v] : k \\in {"A"}, v \\in {"sv1", "sv2"}} \\cup {[op |-> "get", k |-> "A"]}'
        a += '\n \\cup {[op |-> "reload", stmts |-> q, fail |-> f] : f \\in BOOLEAN, q \\in {<<[op |-> "mode", v |-> "none"], [op |-> "clear"]>>, <<[op |-> "kw", v |-> "CUST"]>>}}'
        return [dict(consts=dict(Acts=a), invariants=["ModeOk"], max_steps=1100 if self.quick else 6000,
                     properties=["NoSecret", "Verbatim", "Skipped", "PatternHidden", "FailedReload"])]

    def execute(self, runs):
        conc = []
        n = 0
        for r in runs:
            acts, sets = [], set()
            for a in r["acts"]:
                a = json.loads(json.dumps(a))
                for s in [a] + a.get("stmts", []):
                    if s["op"] == "set":
                        s["v"] += TAIL
                sets |= {a["v"]} if a["op"] == "set" else {s["v"] for s in a.get("stmts", []) if s["op"] == "set"}
                if a["op"] == "line":
                    n += 1
                    a["mark"] = "m%dz" % n
                    ws = []
                    for j, x in enumerate(a["w"]):
                        ws.append(dict(x, v=x["v"] and "%syQ%djW%dK" % (x["v"], n, j)))
                    a["w"] = ws
                    a["line"] = " ".join(render(x) for x in ws) + " " + a["mark"]
                    a["secrets"] = [t for x in ws for t in x["v"][1:].split(" ")[-1:] if t]
                    a["secrets"] += ["yQ%djW%dK" % (n, j) for j, x in enumerate(ws) if x["v"]]
                if a["op"] == "get":
                    a["secrets"] = sorted(sets)
                acts.append(a)
            conc.append(dict(cfg=r["cfg"], acts=acts))
        res = self.run_harness(conc)
        for r, c, obs in zip(runs, conc, res):
            for a, ca, o in zip(r["acts"], c["acts"], obs):
                if a["op"] == "get" and "v" in o:
                    o["v"] = o["v"].replace(TAIL, "")
                if a["op"] == "line" and "mem" in o:
                    mem = []
                    for t in o["mem"]:
                        t = norm(t)
                        if t.endswith(" " + ca["mark"]):
                            t = t[:-len(ca["mark"]) - 1]
                        for x, cx in zip(a["w"], ca["w"]):
                            if cx["v"]:
                                t = t.replace(cx["v"], x["v"])
                        mem.append(t)
                    o["mem"] = mem
        return res

    def random_line(self, rng):
        ws = [wd("w", rng.choice(["vnone", "vnone", "deploy", "zeta9", "git-x"]))]
        if rng.random() < 0.25:
            ws = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            x = rng.random()
            v = rng.choice(["s", "s3c", "s e c", "S p", "abc.def", "é b", "a=b", "x-y_z/w", "a:b@c,d", "%41+", "日本", "s=t u"])
            if x < 0.35:
                ws.append(wd("asg", rng.choice(KEYS), v, q=rng.choice(["'", '"', "w'", 'w"', "esc", "mix", "mix2"] + [""] * 4 * (" " not in v))))
            elif x < 0.5:
                o = rng.choice(["--password", "--token", "-token", "--api-key", "--api_key", "--apikey", "--access-token", "--PASSWD", "--secret",
                                "--passphrase", "--passwd", "--Secret", "-password"])
                ws.append(wd("opt", rng.choice([o + "=", o + " ", o + "  ", "-p "]), v,
                             q=rng.choice(["'", '"', "esc", "mix", "mix2"] + [""] * 4 * (" " not in v))))
            elif x < 0.57:
                ws.append(wd("hdr", rng.choice(["Authorization: Bearer ", "authorization:bearer ", "X-Y: 1, Authorization: Bearer "]),
                             rng.choice(["s3c", "abc.d-_e", "s", "a~b+c/d=", "e.y.z"])))
            elif x < 0.67:
                ws.append(wd("url", "http://a/b" + rng.choice(["?", "?x=1&", "?x&"]) + rng.choice(["token", "access_token", "api_key", "apikey",
                             "auth", "password"]) + "=", rng.choice(["s3c", "s", "a%20b", "x=y", "u.v/w"]), rng.choice(["", "", "&y=2", "&y=2&z"]), rng.choice(["'", '"'])))
            else:
                ws.append(wd("w", rng.choice(WORDS)))
        if rng.random() < 0.12:
            v = rng.choice(["x zeta y", "q9.s", "a MYK", "s q9 q9 t", "zeta"])
            q = rng.choice(["'", '"', "esc", "mix"])
            ws.append(wd("asg", rng.choice(["API_KEY", "db_password", "GH_TOKEN_2"]), v, q=q) if rng.random() < 0.5 else
                      wd("opt", rng.choice(["--token=", "--password ", "-p "]), v, q=q))
        if rng.random() < 0.1:
            ws += [wd("w", rng.choice(["zeta9", "MYK", "b.q9.c", "a-deploy"])) for _ in range(2)]
        return ws or [wd("w", "vnone")]

    def random_conf(self, rng):
        x = rng.random()
        if x < 0.4:
            return dict(op="mode", v=rng.choice(["skip", "redact", "redact", "REDACT", "none", "off"]))
        if x < 0.6:
            return dict(op="kw", v=rng.choice(["CUST", "cust", "a1", "ite"]))
        if x < 0.75:
            bad = rng.random() < 0.2
            return dict(op="pat", v="(a" if bad else rng.choice(PATS), bad=bad)
        if x < 0.95:
            return dict(op="set", k=rng.choice(["A", "B"]), v="sv%d" % rng.randint(1, 9))
        return dict(op="clear")

    def random_histories(self):
        rng = self.rng
        out = []
        for _ in range(80 if self.quick else 240):
            acts = []
            for _ in range(35):
                x = rng.random()
                if x < 0.6:
                    acts.append(dict(op="line", w=self.random_line(rng), save=rng.random() < 0.93))
                elif x < 0.85:
                    acts.append(self.random_conf(rng))
                elif x < 0.92:
                    acts.append(dict(op="get", k=rng.choice(["A", "B", "C"])))
                elif x < 0.98:
                    acts.append(dict(op="reload", stmts=[self.random_conf(rng) for _ in range(rng.randint(0, 3))], fail=rng.random() < 0.5))
                else:
                    acts.append(dict(op="restart"))
            out.append(dict(cfg=dict(bg=rng.random() < 0.3), acts=acts))
        return out
