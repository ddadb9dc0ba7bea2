"""C13: the line editor (spec/Editor.tla)."""
from vt.core import Check
from vt.tlc import tla

WIDE, ZERO = ["漢", "字", "🐕"], ["\u0301"]
CMDS = ["zulu", "zebra", "qqq"]
FILES = ["xfile", "xray.txt", "çx"]
ABBR = [["z", "zulu xfile"], ["gé", "q 漢"], ["k", ""], ["qw", "zz"]]


def ch(t):
    return list(t)


class Prop(Check):
    pid = "C13"
    spec = "Editor"
    module = "editor"
    walk_len = 40
    assumptions = ["keys arrive one by one, as the event loop delivers them; two Ctrl-C in a row (which end a debug build) are not sent",
                   "a ghost may be offered or not; what it offers is a command of the history or a completion of the word at the cursor"]

    def consts(self, acts, inits, names, abbr):
        return dict(Acts=acts, Inits="{%s}" % ", ".join("<<%s, %s>>" % (tla(p), tla([ch(h) for h in hs])) for p, hs in inits),
                    Names="{%s}" % ", ".join(tla(ch(n)) for n in names), Abbr=tla([[ch(w), ch(x)] for w, x in abbr]),
                    Wide="{%s}" % ", ".join(tla(w) for w in WIDE), Zero="{%s}" % ", ".join(tla(w) for w in ZERO))

    def configs(self):
        inv, props = ["TypeOk"], ["Keeps", "Deletes", "Moves", "Runs"]
        one = "{[op |-> o] : o \\in {%s}}"
        typ = "(IF Len(core[1]) >= %d THEN {} ELSE {[op |-> \"type\", c |-> c] : c \\in %s})"
        edit = one % ", ".join('"%s"' % o for o in ["bs", "^w", "^k", "^u", "left", "^left", "right", "^right", "^a", "^e"])
        out = []
        # editing, words, brackets, pasting
        lim = 3 if self.quick else 4
        a1 = typ % (lim, '{"z", " ", "("%s}' % ("" if self.quick else ', ")"')) + " \\cup " + edit \
            + ' \\cup (IF Len(core[1]) < %d THEN {[op |-> "paste", t |-> <<"漢", "\\r", "\\n">>]} ELSE {})' % (lim - 1)
        out.append(dict(consts=self.consts(a1, [(False, []), (True, [])], [], [["z", "q "]]), invariants=inv, properties=props,
                        max_steps=9000 if self.quick else 60000))
        # running, unfinished commands
        a2 = "(IF Len(core[4]) >= 2 THEN %s ELSE %s \\cup %s)" % (
            one % '"up", "down", "^e", "right", "bs", "^c"', typ % (1 if self.quick else 2, '{"z", "(", ")", "\'", "\\\\", "|"}'),
            one % '"enter", "^c", "left"')
        a2 = "(IF Len(core[3]) >= %d THEN %s ELSE %s)" % (5 if self.quick else 6, one % '"^c"', a2)
        out.append(dict(consts=self.consts(a2, [(False, ["q"])], ["zq"], [["z", "q "]]), invariants=inv, properties=props,
                        max_steps=9000 if self.quick else 60000))
        # history
        a3 = typ % (1 if self.quick else 2, '{"a", "b"}') + " \\cup " + one % '"up", "down", "enter", "bs", "right", "^u"'
        a3 = "(IF Len(core[4]) >= 4 \\/ Len(core[1]) > 4 THEN {} ELSE %s)" % a3
        out.append(dict(consts=self.consts(a3, [(False, ["ab", "b", "a"])], [], []), invariants=inv, properties=props,
                        max_steps=9000 if self.quick else 60000))
        return out

    def trace_consts(self):
        return self.consts("{}", [(False, [])], CMDS + FILES, ABBR)

    def trace_groups(self, hist, res):
        groups = {}
        for n, h in enumerate(hist):
            groups.setdefault((h["cfg"]["pair"], tuple(h["cfg"]["hist"])), []).append(n)
        return [(self.spec, self.consts("{}", [(p, list(hs))], CMDS + FILES, ABBR), ix) for (p, hs), ix in groups.items()]

    def run_cfg(self, init):
        return dict(pair=init[6], hist=["".join(h) for h in init[3]], cmds=["zq"] if init[3] == [["q"]] else ["~"], files=[],
                    abbr=[] if len(init[3]) == 3 else [["z", "q "]])

    def random_histories(self):
        rng = self.rng
        out = []
        pools = [[], ["zulu a", "q 漢", "zulu b", "zebra", "(q)"], ["gx 1", "gx 2", "x", "gé", "gx 3"]]
        for n in range(110 if self.quick else 400):
            pair = n % 3 == 2
            hist = pools[n % len(pools)] if n % 5 else pools[rng.randrange(3)]
            acts, ctrlc = [], False
            alpha = rng.choice([list("zq gk"), list("zqxg é漢\u0301🐕 "), list("zq ()[]{}'\""), list("zq |&;\\ \"'("), list("zulu gx12é")])
            keys = rng.choice([["bs", "^w", "left", "^left", "right", "^right", "^a", "^e", "^k", "^u"], ["up", "down", "up", "bs", "^u"],
                               ["bs", "left", "right", "^f", "^right", "^e", "up", "down"],
                               ["bs", "^w", "^k", "^u", "left", "right", "^left", "^right", "^a", "^e", "up", "down", "^f", "esc2"]])
            for _ in range(rng.randint(30, 70)):
                x = rng.random()
                if x < 0.5:
                    acts.append(dict(op="type", c=rng.choice(alpha)))
                elif x < 0.55:
                    t = [rng.choice(alpha + ["\r", "\n", "\r"]) for _ in range(rng.randint(1, 5))]
                    acts.append(dict(op="paste", t=t))
                elif x < 0.58:
                    acts += [dict(op="type", c=c) for c in rng.choice(["", " ", "x ", "|"]) + rng.choice(ABBR)[0]]
                    acts.append(rng.choice([dict(op="type", c=" "), dict(op="enter"), dict(op="left")]))
                elif x < 0.64:
                    acts.append(dict(op="enter"))
                elif x < 0.66:
                    if ([""] + [a["op"] for a in acts if a["op"] != "paste"])[-1] != "^c":
                        acts.append(dict(op="^c"))
                else:
                    acts.append(dict(op=rng.choice(keys)))
            out.append(dict(cfg=dict(pair=pair, hist=hist, cmds=CMDS, files=[] if "'" in alpha else FILES, abbr=ABBR),
                            acts=acts))
        return out
