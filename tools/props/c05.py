"""C05: command history (spec/History.tla)."""
from vt.core import Check
from vt.tlc import tla

SEEDROWS = [("make all", -9), ("ls", -7), ("git log", -5), ("Git push", -3), ("ls -la", -2)]


def row(c, w, n=1, k="p2"):
    return dict(c=c, w=w, n=n, k=k, x=-1, d=-1, p="none", s="none")


Q0 = dict(text="", scope="all", status="any", dur=-1, lim=-1, who="p2")


class Prop(Check):
    pid = "C05"
    spec = "History"
    module = "history"
    walk_len = 60
    assumptions = ["executions carry distinct timestamps (order among equal timestamps is left open)",
                   "a killed process is represented by dropping the session without a shutdown step"]

    def configs(self):
        inv = ["Once", "CursorOk", "Durable"]
        props = ["NoLoss", "Counted", "RestartShowsAll", "WriteIsNewest", "NavOk", "ReadOnly"]
        cmds = '{"a", "ab", "b"}'
        acts = '''
  (IF core[6] >= MaxClk THEN {} ELSE
    {[op |-> "write", b |-> <<[c |-> x, w |-> core[6] + 1]>>] : x \\in %(c)s}
    \\cup {[op |-> "other", bg |-> FALSE, c |-> x, w |-> core[6] + 1] : x \\in {"ab"}})
  \\cup {[op |-> "restart", k |-> k] : k \\in {1, 100}}
  \\cup {[op |-> "older", k |-> 100], [op |-> "reload"], [op |-> "back"], [op |-> "forward"], [op |-> "bottom"]}
  \\cup {[op |-> "word", v |-> v] : v \\in {"", "a"}}
  \\cup {[op |-> "first", v |-> "a"]}''' % dict(c=cmds)
        out = []
        out.append(dict(consts=dict(MaxClk="3" if self.quick else "4", InitDb="[x \\in {} |-> 0]",
                                    Acts=acts), invariants=inv, properties=props,
                        max_steps=16000 if self.quick else 60000))
        # outcomes and queries, on a fixed navigation position
        acts2 = '''
  (IF core[6] >= MaxClk THEN {} ELSE
    {[op |-> "write", b |-> <<[c |-> x, w |-> core[6] + 1], [c |-> "A", w |-> core[6] + 2]>>] : x \\in {"a", "b"}}
    \\cup {[op |-> "write", b |-> <<[c |-> x, w |-> core[6] + 1]>>] : x \\in {"a"}})
  \\cup {[op |-> "outcome", c |-> c, x |-> x, d |-> 5 * x, p |-> "p2", s |-> "p1"] : c \\in {"a", "b"}, x \\in {0, 1}}
  \\cup {[op |-> "restart", k |-> 100], [op |-> "recent", k |-> 2]}
  \\cup {[op |-> "cd", d |-> d] : d \\in {"p1/sub", "p2"}}
  \\cup {[op |-> "query", q |-> [text |-> tx, scope |-> sc, status |-> st, dur |-> -1, lim |-> -1, who |-> "p1"]] :
          tx \\in {"a"}, sc \\in {"all", "project", "session"}, st \\in {"any", "fail"}}
  \\cup {[op |-> "query", q |-> [text |-> "", scope |-> "cwd", status |-> "ok", dur |-> du, lim |-> 1, who |-> "p2"]] :
          du \\in {-1, 5}}'''
        out.append(dict(consts=dict(MaxClk="2" if self.quick else "4", InitDb="[x \\in {} |-> 0]",
                                    Acts=acts2), invariants=inv, properties=props,
                        max_steps=8000 if self.quick else 40000))


        return out

    def trace_consts(self):
        return dict(MaxClk="1000000", InitDb="[x \\in {} |-> 0]", Acts="{}")

    def run_cfg(self, init):
        return {}

    def random_histories(self):
        out = []
        rng = self.rng
        words = ["ls", "ls -la", "git log", "Git Push", "git push", "make", "make test", "a", "cargo b", "CARGO B",
                 "echo x|y", "cd /", "git", "  spaced", "lsof", "gi"]
        for n in range(90 if self.quick else 160):
            bg = n % 4 == 3
            clk = 0
            acts = []
            used = set()
            cmds = rng.sample(words, rng.randint(3, len(words)))
            for _ in range(rng.randint(30, 60)):
                x = rng.random()
                if x < 0.26:
                    b = []
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        if rng.random() < 0.15:
                            w = -rng.randint(1, 5000)
                            while w in used:
                                w -= 1
                        else:
                            clk += rng.randint(1, 5)
                            w = clk
                        used.add(w)
                        b.append(dict(c=rng.choice(cmds), w=w))
                    acts.append(dict(op="write", b=b))
                elif x < 0.40:
                    acts.append(dict(op="outcome", c=rng.choice(cmds), x=rng.choice([0, 0, 1, 2, 130]),
                                     d=rng.choice([0, 10, 999]), p=rng.choice(["p1", "p2"]),
                                     s=rng.choice(["p1", "p2"])))
                elif x < 0.45:
                    clk += 1
                    acts.append(dict(op="other", bg=bg, c=rng.choice(cmds), w=clk))
                elif x < 0.50:
                    acts.append(dict(op="restart", k=rng.choice([1, 2, 3, 1000])))
                elif x < 0.53:
                    acts.append(dict(op="older", k=rng.choice([1, 2, 1000])))
                elif x < 0.57:
                    if not bg:
                        acts.append(dict(op="reload"))
                elif x < 0.60:
                    acts.append(dict(op="cd", d=rng.choice(["p1", "p1/sub", "p2"])))
                elif x < 0.65:
                    acts.append(dict(op="word", v=rng.choice(["", "", "g", "git", "ls", "m", "zz"])))
                elif x < 0.77:
                    acts.append(dict(op="back"))
                elif x < 0.84:
                    acts.append(dict(op="forward"))
                elif x < 0.86:
                    acts.append(dict(op="bottom"))
                elif x < 0.90:
                    acts.append(dict(op="first", v=rng.choice(["", "g", "git", "Git", "ls ", "zz", "a"])))
                elif x < 0.92:
                    acts.append(dict(op="recent", k=rng.choice([0, 1, 3, 50])))
                else:
                    acts.append(dict(op="query", q=dict(
                        text=rng.choice(["", "GIT", "git", "s", "l", "zz"]),
                        scope=rng.choice(["all", "session", "cwd", "project"]),
                        status=rng.choice(["any", "ok", "fail"]), dur=rng.choice([-1, -1, 0, 10, 500]),
                        lim=rng.choice([-1, -1, 0, 1, 2]), who=rng.choice(["p1", "p2"]))))
                if bg and acts and acts[-1]["op"] == "older":
                    acts.pop()
            out.append(dict(cfg=dict(bg=bg), acts=acts))
        # more than 100 different commands: the recent-entry shortcut of the prefix search is not enough
        acts = [dict(op="write", b=[dict(c="first one", w=1)])]
        acts += [dict(op="write", b=[dict(c="c%d" % i, w=2 + i)]) for i in range(105)]
        acts += [dict(op="outcome", c="first one", x=2, d=10, p="p1", s="p2"),
                 dict(op="query", q=dict(text="", scope="all", status="fail", dur=-1, lim=-1, who="p2")),
                 dict(op="first", v="first"), dict(op="first", v="c10"), dict(op="first", v="c1"),
                 dict(op="word", v="first"), dict(op="back"), dict(op="back"), dict(op="forward"),
                 dict(op="write", b=[dict(c="c3", w=200)]), dict(op="first", v="c"),
                 dict(op="restart", k=60), dict(op="first", v="first"), dict(op="older", k=30),
                 dict(op="first", v="first"), dict(op="first", v="c2"), dict(op="restart", k=1000), dict(op="recent", k=3)]
        out.append(dict(cfg=dict(bg=False), acts=acts))
        return out
