"""C22: the Lisp of the shell (spec/Lisp.tla)."""
import random
from vt.core import Check
from vt.tlc import tla

GLOBALS = ["a", "b", "c", "s", "l", "k", "fa", "fb", "rest", "mk", "lp", "nt", "ev", "od", "w", "up", "x", "q", "car"]
WORDS = ["", "a", "a b", "b", "ba", "é"]


def I(n): return {"i": n}
def S(t): return {"s": t}
def Y(n): return {"y": n}
def B(b): return {"b": b}
def L(*xs): return {"l": list(xs)}
NIL = L()


def call(n, *xs):
    return L(Y(n), *xs)


def quote(x):
    return L(Y("quote"), x)


def text(x, rng):
    """An expression as a program text."""
    if "i" in x:
        return str(x["i"])
    if "s" in x:
        return '"' + x["s"].replace("\\", "\\\\").replace('"', '\\"') + '"'
    if "y" in x:
        return x["y"]
    if "b" in x:
        return rng.choice(["T", "t"] if x["b"] else ["F", "f"])
    q = x["l"]
    if not q:
        return rng.choice(["NIL", "nil", "()", "( )"])
    if len(q) == 2 and "y" in q[0] and q[0]["y"] in ("quote", "comma") and rng.random() < 0.8:
        return {"quote": "'", "comma": ","}[q[0]["y"]] + text(q[1], rng)
    def gap():
        r = rng.random()
        return " " if r < 0.85 else "\n  " if r < 0.93 else "  " if r < 0.96 else rng.choice([" ;; é ) ( \"\n", " ;; a; b ( ;c\n", " ;;; x\n", ";;;;\n ", " ;;\n;; (\n", " ; "])
    out = "(" + ("" if rng.random() < 0.95 else " ")
    for n, y in enumerate(q):
        out += (gap() if n else "") + text(y, rng)
    return out + ("" if rng.random() < 0.95 else " ") + ")"


FAILS = ["(/ 1 0)", "(truncate 5 0)", "(+ 9223372036854775807 1)", "(- -9223372036854775807 2)", "(* 9223372036854775807 2)", "(car 5)", "(cdr \"x\")",
         "(car ())", "(list 1", ")", "\"open", "(1 2)", "(\"f\" 1)", "(nosuch)", "nosuch", "(set nosuch 1)", "(define \"x\" 1)", "(lambda x 1)", "(lambda (1) 1)",
         "(let (x) 1)", "(let ((1 2)) 1)", "(let x 1)", "(cond T)", "(cond (T))", "(if)", "(if T)", "(when)", "(quote)", "(comma)", "(not)", "(length 5)",
         "(nth -1 (list 1))", "(sort 1)", "(map car)", "(apply + 1)", "(eval)", "(bound? \"x\")", "(range 1)", "(- 1)", "(* 1 \"x\")", "(+ 1 T)", "(defun)", "(defun 1 ())",
         "(defun zz 1 1)", "((lambda (x) (nosuch x)) 1)", "(map (lambda (x) (car x)) (list 1))", "(filter nosuch (list 1))", "(/ -9223372036854775808 -1)", "(begin 1 (nosuch) 2)",
         "(T)", "(() 1)", "1.", "(1-2)"]
DEEP = ["(defun dd (n acc) (if (== n 0) acc (dd (- n 1) (+ acc 1))))", "(defun dd (n acc) (cond ((== n 0) acc) (T (dd (- n 1) (+ acc 1)))))",
        "(defun dd (n acc) (begin 1 (if (!= n 0) (dd (- n 1) (+ acc 1)) acc)))", "(defun dd (n acc) (let ((m (- n 1))) (if (== n 0) acc (dd m (+ acc 1)))))",
        "(defun dd (n acc) (set dz n) (if (== n 0) acc (let ((z acc)) (begin (dd (- n 1) (+ z 1))))))",
        "(defun dd (n acc) (if (== n 0) acc (when T 1 (dd (- n 1) (+ acc 1)))))",
        "(define dd (lambda (n acc) (if (== n 0) acc (de (- n 1) (+ acc 1)))))"]

FNS = ("fa", "fb", "rest", "mk", "k", "lp", "nt", "ev", "w", "up")


class Gen:
    def __init__(self, rng):
        self.r = rng

    def int(self, d, sc, fns=(), want=None):
        r = self.r
        if d <= 0 or (not want and r.random() < 0.15):
            return r.choice([I(r.randint(-9, 9)), Y(r.choice(sc["i"])), Y(r.choice(sc["i"]))])
        e = lambda: self.int(d - 1, sc, fns)
        o = r.choice(["+", "+", "-", "*", "/", "truncate", "length", "car", "if", "if", "cond", "begin", "let", "let", "set", "define", "fn", "fn", "lam", "eval",
                      "apply", "call", "call", "call", "nth", "when", "when", "or", "unquote", "bad"])
        o = want or o
        if o == "call" and not fns:
            o = "lam"
        if o == "+":
            return call("+", *[e() for _ in range(r.choice([1, 2, 2, 2, 3]))])
        if o == "-":
            return call("-", e(), e())
        if o == "*":
            return call("*", *r.choice([[I(r.randint(-2, 3)), e()], [e(), I(2)], [], [e()]]))
        if o in ("/", "truncate"):
            return call(o, e(), I(r.choice([1, 2, 3, -2, -3, 7, 7, 0])))
        if o == "length":
            return call("length", self.list(d - 1, sc, fns))
        if o == "car":
            return call("car", call("cons", e(), self.list(d - 1, sc, fns)) if r.random() < 0.6 else self.list(d - 1, sc, fns))
        if o == "nth":
            return call("+", I(0), call("nth", I(r.randint(-1, 3)), self.list(d - 1, sc, fns)))
        if o == "if":
            return call("if", self.bool(d - 1, sc, fns), e(), e())
        if o == "cond":
            cl = [L(self.bool(d - 1, sc, fns), e()) for _ in range(r.randint(0, 2))]
            return call("cond", *cl, L(r.choice([B(True), I(1), S("x"), Y("car")]), e()))
        if o == "begin":
            return call("begin", *[self.any(d - 1, sc, fns) for _ in range(r.randint(0, 2))], e())
        if o == "let":
            n = r.sample(["a", "b", "x", "y", "q"], r.choice([1, 1, 2]))
            return self.let(n, d, sc, fns, "int")
        if o in ("set", "define"):
            v = r.choice([v for v in sc["i"] if v not in sc["top"]] or ["zq"])
            if o == "set" and r.random() < 0.5:
                v = r.choice(sc["i"])
                return call("set", Y(v), self.bound(e()))
            return call(o, Y(v), e())
        if o == "lam":
            n = r.sample(["x", "y", "a"], r.choice([0, 1, 2]))
            sub = dict(sc, i=sc["i"] + n)
            if r.random() < 0.2:
                sub["i"] = sub["i"] + ["c", "b"]
                return L(call("lambda", L(*[Y(v) for v in n + ["..."]]), self.any(1, sub, fns), call("set", Y(r.choice(sub["i"])), call("length", Y("..."))), self.int(d - 1, sub, fns)),
                         *[e() for _ in range(r.randint(0, 3))])
            return L(call("lambda", L(*[Y(v) for v in n]), *[self.any(1, sub, fns) for _ in range(r.choice([0, 0, 1]))], self.int(d - 1, sub, fns)), *[e() for _ in n])
        if o == "eval":
            return r.choice([call("eval", quote(e())), call("eval", L(Y("list"), quote(Y("+")), e(), e()))])
        if o == "apply":
            f = r.choice([Y("+"), call("lambda", L(Y("x"), Y("y")), self.int(d - 1, dict(sc, i=sc["i"] + ["x", "y"]), fns)), quote(Y("-")), Y("*")])
            return call("apply", f, call("list", e(), I(r.randint(0, 3))))
        if o == "call" and fns:
            f = r.choice(fns)
            n = {"fa": 1, "fb": 2, "lp": 2, "nt": 1, "k": 1, "ev": 1, "w": 0, "up": 0, "rest": 0, "mk": 0}[f]
            if f in ("lp", "nt", "ev"):
                x = [I(r.randint(0, 5))] + ([e()] if n == 2 else [])
                return call("if", call(f, *x), I(1), I(2)) if f == "ev" else call(f, *x)
            if f == "w":
                return call("w", self.bool(d - 1, sc, fns), e())
            if f == "up":
                return call("up", Y(r.choice([v for v in sc["i"] if v not in ("a", "b", "c")] or ["a"])))
            if f == "rest":
                return call("length", call("rest", *[e() for _ in range(r.randint(0, 4))]))
            if f == "mk":
                return L(call("mk", e()), *[e() for _ in range(r.choice([0, 1, 1]))])
            x = [e() for _ in range(n if r.random() < 0.9 else r.randint(0, 3))]
            return call(f, *x)
        if o == "when":
            t = lambda: self.int(d - 1 if d > 1 else d, sc, fns, want=r.choice(["lam", "call"])) if d > 0 and r.random() < 0.7 else e()
            c = r.choice([call("when", self.bool(d - 1, sc, fns), self.any(d - 1, sc, fns), t()), call("when", B(True), t()), call("and", I(1), t()), call("or", NIL, t()), call("begin", t()),
                          call("cond", L(B(False), I(1)), L(B(True), t())), call("let", NIL, t()), call("if", I(1), t()), call("when", self.bool(d - 1, sc, fns), t())])
            return call("+", I(0), r.choice([call("car", call("list", c)), c, call("car", call("cons", c, NIL))]))
        if o == "or":
            return call("or", call("and", self.bool(d - 1, sc, fns), e()), e())
        if o == "unquote":
            return r.choice([call("car", quote(L(call("comma", e()), Y("z")))), call("eval", call("car", call("cdr", quote(L(Y("z"), call("comma", e())))))),
                             call("eval", quote(call("+", I(1), call("comma", e())))), call("eval", call("car", call("cdr", quote(call("list", quote(call("comma", e())))))))])
        if o == "bad":
            if r.random() < 0.3:
                return r.choice([call("car", I(3)), call("*", S("x"), I(1)), Y("undefd"), call("-", I(1)), L(I(1), I(2)), call("length", S("x"))])
        return e()

    def bound(self, x):
        return call("let", L(L(Y("q"), x)), call("if", call("and", call("<", I(-60), Y("q")), call("<", Y("q"), I(60))), Y("q"), I(0)))

    def let(self, names, d, sc, fns, ty):
        r = self.r
        ds, cur = [], sc
        for n in names:
            ds.append(L(Y(n), self.int(d - 1, cur, fns)))
            cur = dict(cur, i=cur["i"] + [n], top=cur["top"] - {n})
        return call("let", L(*ds), *[self.any(d - 1, cur, fns) for _ in range(r.choice([0, 0, 1]))], getattr(self, ty)(d - 1, cur, fns))

    def bool(self, d, sc, fns=()):
        r = self.r
        if d <= 0:
            return r.choice([B(True), B(False), call("<", Y(r.choice(sc["i"])), I(r.randint(-3, 5)))])
        o = r.choice(["cmp", "cmp", "cmp", "==", "not", "and", "or", "is", "is", "bound", "cmpl", "words", "eqany"])
        if o == "cmp":
            return call(r.choice(["<", "<=", ">", ">=", "==", "!="]), self.int(d - 1, sc, fns), self.int(d - 1, sc, fns))
        if o == "cmpl":
            return call(r.choice(["<", "<=", ">", ">="]), self.list(d - 1, sc, fns), self.list(d - 1, sc, fns))
        if o == "words":
            return call(r.choice(["<", "<=", ">", ">=", "=="]), S(r.choice(WORDS)), S(r.choice(WORDS)))
        if o in ("==", "eqany"):
            return call(r.choice(["==", "!="]), self.any(d - 1, sc, fns, False), self.any(d - 1, sc, fns, False))
        if o == "not":
            return call("not", self.bool(d - 1, sc, fns))
        if o in ("and", "or"):
            return call(o, *[self.bool(d - 1, sc, fns) for _ in range(r.randint(0, 3))])
        if o == "bound":
            return call("bound?", quote(Y(r.choice(["a", "x", "y", "nosuch", "car", "q", "k"]))))
        return call(r.choice(["is_null", "is_symbol", "is_boolean", "is_procedure", "is_pair", "is_number"]),
                    r.choice([self.any(d - 1, sc, fns, False), quote(Y("a")), B(True), NIL, Y("car"), call("lambda", NIL, I(1)), S("x")]))

    def list(self, d, sc, fns=()):
        r = self.r
        if d <= 0:
            return r.choice([Y("l"), NIL, quote(L(I(3), I(-1), I(2))), call("list", Y(r.choice(sc["i"])), I(1))])
        e = lambda: self.int(d - 1, sc, fns)
        m = lambda: self.list(d - 1, sc, fns)
        o = r.choice(["list", "list", "cons", "cdr", "quote", "reverse", "sort", "sort", "map", "map", "filter", "range", "l", "rest", "if", "mapf", "begin", "let"])
        if o == "list":
            return call("list", *[e() for _ in range(r.randint(0, 4))])
        if o == "cons":
            return call("cons", e(), m())
        if o in ("cdr", "reverse", "sort"):
            return call(o, m())
        if o == "quote":
            return quote(L(*[I(r.randint(-5, 5)) if r.random() < 0.6 else call("comma", e()) for _ in range(r.randint(1, 4))]))
        if o == "map":
            return call("map", call("lambda", L(Y("x")), self.int(d - 1, dict(sc, i=sc["i"] + ["x"]), fns)), m())
        if o == "filter":
            return call("filter", call("lambda", L(Y("x")), self.bool(d - 1, dict(sc, i=sc["i"] + ["x"]), fns)), m())
        if o == "range":
            return call("range", I(r.randint(-2, 3)), I(r.randint(-2, 4)))
        if o == "l":
            return Y("l")
        if o == "rest" and "rest" in fns:
            return call("rest", *[e() for _ in range(r.randint(0, 4))])
        if o == "if":
            return call("if", self.bool(d - 1, sc, fns), m(), m())
        if o == "mapf" and "fa" in fns:
            return call("map", r.choice([Y("fa"), quote(Y("fa"))]), m())
        if o == "begin":
            return call("begin", self.any(d - 1, sc, fns), m())
        if o == "let":
            return self.let([r.choice(["a", "x", "y"])], d, sc, fns, "list")
        return m()

    def str(self, d, sc, fns=()):
        r = self.r
        return r.choice([lambda: S(r.choice(WORDS)), lambda: Y("s"), lambda: call("+", S(r.choice(WORDS)), self.int(d - 1, sc, fns)), lambda: call("+", Y("s"), S("z")),
                         lambda: call("+", self.int(d - 1, sc, fns), S(r.choice(WORDS)), I(r.randint(0, 3))), lambda: call("+", S("x")),
                         lambda: call("if", self.bool(d - 1, sc, fns), S("yes"), S("no"))])()

    def any(self, d, sc, fns=(), fnvals=True):
        r = self.r
        o = r.choice(["int", "int", "int", "list", "bool", "str", "sym", "nest", "when", "fnv", "sort"])
        if o == "sym":
            return quote(r.choice([Y("abc"), L(Y("a"), L(Y("b"), S("é"), NIL), B(True)), L(Y("quote"), Y("x")), quote(L(quote(Y("a")), I(1))), L(Y("a"), quote(call("comma", self.int(d - 1, sc, fns)))), L(quote(L(call("comma", self.int(d - 1, sc, fns)))), NIL), Y("é-x"), L(Y("a"), call("comma", self.int(d - 1, sc, fns)))]))
        if o == "nest":
            return call("list", self.str(d - 1, sc, fns), self.list(d - 1, sc, fns), self.bool(d - 1, sc, fns))
        if o == "when":
            return call(r.choice(["when", "if"]), self.bool(d - 1, sc, fns), self.int(d - 1, sc, fns))
        if o == "fnv":
            if not fnvals:
                return S("x")
            return r.choice([Y("car"), Y("fa"), call("lambda", L(Y("x")), quote(Y("é")), S("é")), call("lambda", NIL), call("list", Y("k"), Y("+"))])
        if o == "sort":
            return call("sort", call("list", *[S(r.choice(WORDS)) for _ in range(r.randint(1, 5))]))
        return getattr(self, o)(d, sc, fns)

    def setup(self, what):
        r = self.r
        top = dict(i=["a", "b", "c"], top={"a", "b", "c"})
        loc = lambda *n: dict(i=["a", "b"] + list(n) * 2, top={"a", "b", "c"})
        if what in ("a", "b", "c"):
            return call("define", Y(what), I(r.randint(-9, 9)))
        if what == "s":
            return call("define", Y("s"), S(r.choice(WORDS)))
        if what == "l":
            return call("define", Y("l"), self.list(1, dict(top, i=["a", "b", "c"])) if r.random() < 0.5 else quote(L(I(3), I(1), I(2))))
        d = r.choice(["defun", "defun", "fn"])
        body = lambda *n: [self.any(2, loc(*n)) for _ in range(r.choice([0, 0, 1]))]
        if what == "fa":
            if r.random() < 0.2:
                return call("define", Y("fa"), call("lambda", L(Y("x")), self.int(3, loc("x"))))
            return call(d, Y("fa"), L(Y("x")), *body("x"), self.int(3, loc("x")))
        if what == "fb":
            return call(d, Y("fb"), L(Y("x"), Y("y")), *body("x", "y"), self.int(3, loc("x", "y"), ("fa", "lp", "nt", "ev", "rest", "mk", "w", "up")))
        if what == "rest":
            return r.choice([call("defun", Y("rest"), L(Y("...")), Y("...")), call("defun", Y("rest"), L(Y("x"), Y("...")), call("cons", Y("x"), Y("..."))),
                             call("defun", Y("rest"), L(Y("x"), Y("y"), Y("...")), call("cons", I(0), call("reverse", Y("...")))),
                             call("defun", Y("rest"), L(Y("..."), Y("x")), call("cons", Y("a"), Y("...")))])
        if what == "mk":
            return r.choice([call("defun", Y("mk"), L(Y("x")), call("lambda", L(Y("y")), call("+", Y("x"), Y("y")))),
                             call("defun", Y("mk"), L(Y("x")), call("lambda", NIL, call("set", Y("x"), call("+", Y("x"), I(1))))),
                             call("defun", Y("mk"), L(Y("x")), call("let", L(L(Y("a"), Y("x"))), call("lambda", L(Y("y")), call("set", Y("a"), call("+", Y("a"), I(2))), Y("a"))))])
        if what == "k":
            return r.choice([call("define", Y("k"), call("mk", I(r.randint(0, 5)))), call("define", Y("k"), call("lambda", L(Y("y")), self.int(3, loc("y"), FNS[:4] + FNS[5:]))),
                             call("define", Y("k"), call("let", L(L(Y("x"), I(1))), call("lambda", L(Y("y")), call("set", Y("x"), call("+", Y("x"), I(1))))))])
        if what == "lp":
            n, acc = Y("n"), Y("acc")
            go = call("lp", call("-", n, I(1)), call("+", acc, self.int(1, dict(i=["n", "acc", "a"], top=top["top"]))))
            end = call("<", n, I(1))
            return call("defun", Y("lp"), L(n, acc), r.choice([call("if", end, acc, go), call("cond", L(end, acc), L(B(True), go)), call("let", L(L(Y("z"), acc)), call("if", end, Y("z"), call("begin", I(1), go))),
                                                              call("begin", call("define", Y("zz"), n), call("if", end, acc, call("when", B(True), go))), call("or", call("and", end, acc), go),
                                                              call("if", end, acc, L(call("lambda", L(Y("v")), call("lp", call("-", n, I(1)), Y("v"))), call("+", acc, I(2))))]))
        if what == "nt":
            n = Y("n")
            return call("defun", Y("nt"), L(n), r.choice([call("if", call("<", n, I(1)), I(0), call("+", n, call("nt", call("-", n, I(1))))),
                                                          call("length", call("map", call("lambda", L(Y("x")), call("if", call("<", n, I(1)), I(0), call("nt", call("-", n, I(2))))), quote(L(I(1), I(2))))),
                                                          call("if", call("<", n, I(1)), I(0), call("car", quote(L(call("comma", call("nt", call("-", n, I(1)))))))),
                                                          call("if", call("<", n, I(1)), I(0), call("eval", call("list", quote(Y("nt")), call("-", n, I(1))))),
                                                          call("if", call("<", n, I(1)), I(0), call("eval", quote(call("nt", call("-", n, I(1)))))),
                                                          call("if", call("<", n, I(1)), I(0), call("apply", Y("nt"), call("list", call("-", n, I(1)))))]))
        if what == "ev":
            return call("defun", Y("ev"), L(Y("n")), call("if", call("==", Y("n"), I(0)), B(True), call("od", call("-", Y("n"), I(1)))))
        if what == "od":
            return call("defun", Y("od"), L(Y("n")), call("if", call("==", Y("n"), I(0)), B(False), call("ev", call("-", Y("n"), I(1)))))
        c = lambda n: call("comma", Y(n))
        if what == "w":
            return call("defmacro", Y("w"), L(Y("c"), Y("body")), r.choice([quote(call("if", c("c"), c("body"), I(0))), call("list", quote(Y("if")), Y("c"), Y("body"), I(0)),
                       quote(call("cond", L(c("c"), c("body")), L(B(True), call("+", I(0), I(0))))), call("let", L(L(Y("x"), Y("body"))), quote(call("if", c("c"), c("x"), I(0)))),
                       call("cons", quote(Y("if")), call("list", Y("c"), Y("body"), I(0)))]))
        if what == "up":
            return call("defmacro", Y("up"), L(Y("v")), r.choice([quote(call("set", c("v"), call("if", call("<", c("v"), I(50)), call("+", c("v"), I(1)), I(0)))),
                                                                 call("list", quote(Y("set")), Y("v"), I(7))]))



class Prop(Check):
    pid = "C22"
    spec = "Lisp"
    module = "lisp"
    walk_len = 20
    assumptions = ["Floats, hash tables and tables, and an order between values of different kinds are left out"]

    def trace_consts(self):
        return dict(Acts="{}", Globals=tla(set(GLOBALS)), Words=tla(WORDS))

    def run_cfg(self, init):
        return dict(globals=GLOBALS)

    def configs(self):
        a, x, k = Y("a"), Y("x"), Y("k")
        xs = [call("define", a, I(1)), call("set", a, I(2)), call("let", L(L(a, I(5))), call("set", a, I(6)), a), call("define", k, call("let", L(L(x, I(1))), call("lambda", NIL, call("set", x, call("+", x, I(1)))))),
              call("k"), call("defun", Y("fa"), L(x), call("define", Y("b"), x), call("if", call("<", x, I(1)), Y("b"), call("fa", call("-", x, I(1))))), call("fa", I(2)), call("fa"),
              call("defmacro", Y("w"), L(x), call("list", quote(Y("set")), quote(a), x)), call("w", call("+", a, I(0))), call("begin", call("define", Y("b"), I(3)), Y("undefd")),
              quote(L(a, call("comma", call("+", I(1), I(1))))), call("sort", quote(L(I(2), I(1)))), call("define", Y("car"), Y("cdr")), call("car", quote(L(I(1), I(2)))),
              call("define", x, I(4)), Y("x"), call("bound?", quote(x)), call("map", Y("fa"), quote(L(I(0), I(1)))), call("and", a, NIL, Y("undefd"))]
        acts = "{" + ",\n ".join('[op |-> "eval", x |-> %s]' % tla(e) for e in xs) + ', [op |-> "fails", k |-> 3], [op |-> "deep", n |-> 20000, k |-> 1]}'
        return [dict(consts=dict(Acts=acts, Globals=tla(set(GLOBALS)), Words=tla(WORDS)), constraint="Small", invariants=["Nested", "NativesStay"], properties=["Scoped"],
                     max_steps=3000 if self.quick else 20000)]

    def execute(self, runs):
        conc = []
        for n, r in enumerate(runs):
            rng = random.Random(self.seed * 7919 + n)
            acts = []
            for a in r["acts"]:
                if a["op"] == "eval":
                    t = [text(a["x"], rng) + rng.choice(["", " ", "\n", " ;; end"])]
                elif a["op"] == "fails":
                    t = [FAILS[a["k"] % len(FAILS)]]
                else:
                    d = DEEP[a["k"] % len(DEEP)]
                    t = ["(define dz 0)", d, d.replace("define dd", "define de").replace("(de ", "(dd "), "(dd %d 0)" % a["n"]]
                acts.append(dict(op=a["op"], texts=t))
            conc.append(dict(cfg=r["cfg"], acts=acts))
        return self.run_harness(conc)

    def random_histories(self):
        rng = self.rng
        out = []
        for _ in range(120 if self.quick else 1200):
            g = Gen(rng)
            acts = [dict(op="eval", x=g.setup(w)) for w in ("a", "b", "c", "s", "l", "fa", "fb", "rest", "mk", "k", "lp", "nt", "ev", "od", "w", "up") if rng.random() < 0.96]
            for _ in range(22):
                z = rng.random()
                top = dict(i=["a", "b", "c"], top={"a", "b", "c"})
                if z < 0.6:
                    x = g.any(rng.choice([2, 3, 3, 4]), top, FNS)
                elif z < 0.7:
                    x = call(rng.choice(["set", "define"]), Y(rng.choice(["a", "b", "c"])), g.bound(g.int(3, top, FNS)))
                elif z < 0.75:
                    x = call("set", Y("l"), g.list(2, top, ()))
                elif z < 0.9:
                    x = g.setup(rng.choice(["s", "l", "fa", "fb", "rest", "mk", "k", "lp", "nt", "w", "up", "k"]))
                elif z < 0.97:
                    acts.append(dict(op="fails", k=rng.randrange(len(FAILS))))
                    continue
                else:
                    acts.append(dict(op="deep", n=20000, k=rng.randrange(len(DEEP))))
                    continue
                acts.append(dict(op="eval", x=x))
            out.append(dict(cfg=dict(globals=GLOBALS), acts=acts))
        return out
