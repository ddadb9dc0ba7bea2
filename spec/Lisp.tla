-------------------------------- MODULE Lisp --------------------------------
(* Lisp: what an expression of the shell's Lisp means.

   Values and expressions are the same: [i |-> 1], [s |-> "text"], [y |-> "symbol"], [b |-> TRUE], [l |-> <<...>>] (NIL is the empty list),
   [n |-> "name"] a native function, [fn |-> names, body, env, mac] a function or macro with the environment it was made in.
   h is the sequence of all environments made, h[1] the global one: [up |-> outer one, e |-> what is defined there]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Acts(_), Globals, Words
VARIABLES h, act, obs
vars == <<h, act, obs>>
Core == h

Nil == [l |-> <<>>]
T == [b |-> TRUE]
F == [b |-> FALSE]
Bool(p) == [b |-> p]
None == [none |-> TRUE]
IsI(v) == "i" \in DOMAIN v
IsS(v) == "s" \in DOMAIN v
IsY(v) == "y" \in DOMAIN v
IsB(v) == "b" \in DOMAIN v
IsL(v) == "l" \in DOMAIN v
IsN(v) == "n" \in DOMAIN v
IsFn(v) == "fn" \in DOMAIN v
True(v) == v # Nil /\ v # F

NativeNames == {"car", "cdr", "cons", "list", "nth", "sort", "reverse", "length", "map", "filter", "not", "==", "!=", "<", "<=", ">", ">=",
  "eval", "apply", "+", "-", "*", "/", "truncate", "range", "is_null", "is_symbol", "is_boolean", "is_procedure", "is_pair", "is_number", "bound?"}
Init0 == <<[up |-> 0, e |-> [n \in NativeNames |-> [n |-> n]]]>>

RECURSIVE Lookup(_, _, _)
Lookup(m, e, s) == IF e = 0 THEN None ELSE IF s \in DOMAIN m[e].e THEN m[e].e[s] ELSE Lookup(m, m[e].up, s)
RECURSIVE Where(_, _, _)
Where(m, e, s) == IF e = 0 THEN 0 ELSE IF s \in DOMAIN m[e].e THEN e ELSE Where(m, m[e].up, s)
Define(m, e, s, v) == [m EXCEPT ![e].e = (s :> v) @@ @]
New(m, up) == Append(m, [up |-> up, e |-> [n \in {} |-> Nil]])

(* R: [h, ok, v] *)
Good(m, v) == [h |-> m, ok |-> TRUE, v |-> v]
Fail(m) == [h |-> m, ok |-> FALSE, v |-> Nil]
From(q, n) == SubSeq(q, n, Len(q))

Text(v) == IF IsI(v) THEN ToString(v.i) ELSE v.s
Trunc(a, d) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF d < 0 THEN -d ELSE d) IN IF (a < 0) = (d < 0) THEN q ELSE -q
RankOf(s) == CHOOSE k \in 1..Len(Words) : Words[k] = s
(* the order of numbers, of words and of lists of them *)
RECURSIVE Less(_, _)
Less(a, d) ==
  IF IsI(a) THEN a.i < d.i
  ELSE IF IsS(a) THEN RankOf(a.s) < RankOf(d.s)
  ELSE IF d.l = <<>> THEN FALSE
  ELSE IF a.l = <<>> THEN TRUE
  ELSE IF a.l[1] = d.l[1] THEN Less([l |-> Tail(a.l)], [l |-> Tail(d.l)])
  ELSE Less(a.l[1], d.l[1])
RECURSIVE Insert(_, _)
Insert(q, v) == IF q = <<>> \/ Less(v, q[1]) THEN <<v>> \o q ELSE <<q[1]>> \o Insert(Tail(q), v)
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
RECURSIVE Sum(_, _)
Sum(v, q) ==
  IF q = <<>> THEN v
  ELSE IF ~(IsI(q[1]) \/ IsS(q[1])) THEN None
  ELSE Sum(IF IsI(v) /\ IsI(q[1]) THEN [i |-> v.i + q[1].i] ELSE [s |-> Text(v) \o Text(q[1])], Tail(q))
RECURSIVE Product(_, _)
Product(v, q) == IF q = <<>> THEN [i |-> v] ELSE IF ~IsI(q[1]) THEN None ELSE Product(v * q[1].i, Tail(q))
OrFail(m, v) == IF v = None THEN Fail(m) ELSE Good(m, v)
Names(v) == [k \in 1..Len(v.l) |-> v.l[k].y]
NamesOk(v) == IsL(v) /\ \A k \in 1..Len(v.l) : IsY(v.l[k])
Fn(v, body, e, mac) == [fn |-> Names(v), body |-> body, env |-> e, mac |-> mac]
Quoted(v) == [l |-> <<[y |-> "quote"], v>>]

RECURSIVE Eval(_, _, _), Quote(_, _, _), QuoteAll(_, _, _, _), EvalAll(_, _, _, _), Block(_, _, _), Let(_, _, _, _), Cond(_, _, _), AndOr(_, _, _, _, _), Call(_, _, _, _), Bind(_, _, _, _, _), MapAll(_, _, _, _, _, _), Native(_, _, _, _)
Eval(m, e, x) ==
  IF IsY(x) THEN OrFail(m, Lookup(m, e, x.y))
  ELSE IF ~IsL(x) \/ x = Nil THEN Good(m, x)
  ELSE
  LET q == x.l
      a == Tail(q)
      w == IF IsY(q[1]) THEN q[1].y ELSE "(" IN
  CASE w = "comma" -> IF a = <<>> THEN Fail(m) ELSE Eval(m, e, a[1])
    [] w = "quote" -> IF a = <<>> THEN Fail(m) ELSE Quote(m, e, a[1])
    [] w \in {"define", "set"} ->
         IF Len(a) < 2 THEN Fail(m) ELSE IF ~IsY(a[1]) THEN Fail(m)
         ELSE LET R == Eval(m, e, a[2]) IN
              IF ~R.ok THEN R
              ELSE IF w = "define" THEN Good(Define(R.h, e, a[1].y, R.v), R.v)
              ELSE LET p == Where(R.h, e, a[1].y) IN IF p = 0 THEN Fail(R.h) ELSE Good(Define(R.h, p, a[1].y, R.v), R.v)
    [] w \in {"defun", "fn", "defmacro"} ->
         IF Len(a) < 2 THEN Fail(m) ELSE IF ~IsY(a[1]) \/ ~NamesOk(a[2]) THEN Fail(m)
         ELSE Good(Define(m, e, a[1].y, Fn(a[2], From(a, 3), e, w = "defmacro")), Nil)
    [] w = "lambda" -> IF a = <<>> THEN Fail(m) ELSE IF ~NamesOk(a[1]) THEN Fail(m) ELSE Good(m, Fn(a[1], From(a, 2), e, FALSE))
    [] w = "let" -> IF a = <<>> THEN Fail(m) ELSE IF ~IsL(a[1]) THEN Fail(m) ELSE Let(New(m, e), Len(m) + 1, a[1].l, From(a, 2))
    [] w = "begin" -> Block(m, e, a)
    [] w = "cond" -> Cond(m, e, a)
    [] w = "when" ->
         IF a = <<>> THEN Fail(m)
         ELSE LET R == Eval(m, e, a[1]) IN IF ~R.ok THEN R ELSE IF True(R.v) THEN Block(R.h, e, Tail(a)) ELSE Good(R.h, Nil)
    [] w = "if" ->
         IF Len(a) < 2 THEN Fail(m)
         ELSE LET R == Eval(m, e, a[1]) IN
              IF ~R.ok THEN R
              ELSE IF True(R.v) THEN Eval(R.h, e, a[2])
              ELSE IF Len(a) > 2 THEN Eval(R.h, e, a[3]) ELSE Good(R.h, Nil)
    [] w \in {"and", "or"} -> AndOr(m, e, a, w = "or", Bool(w = "and"))
    [] OTHER ->
         LET f == Eval(m, e, q[1]) IN
         IF ~f.ok THEN f
         ELSE IF IsFn(f.v) /\ f.v.mac
         THEN LET X == Call(f.h, e, f.v, a) IN IF ~X.ok THEN X ELSE Eval(X.h, e, X.v)
         ELSE LET A == EvalAll(f.h, e, a, <<>>) IN
              IF ~A.ok THEN Fail(A.h) ELSE Call(A.h, e, f.v, A.v)
EvalAll(m, e, q, done) ==
  IF q = <<>> THEN Good(m, done)
  ELSE LET R == Eval(m, e, q[1]) IN IF ~R.ok THEN R ELSE EvalAll(R.h, e, Tail(q), Append(done, R.v))
Quote(m, e, x) ==
  IF ~IsL(x) \/ x = Nil THEN Good(m, x)
  ELSE IF x.l[1] = [y |-> "comma"] THEN Eval(m, e, x)
  ELSE QuoteAll(m, e, x.l, <<>>)
QuoteAll(m, e, q, done) ==
  IF q = <<>> THEN Good(m, [l |-> done])
  ELSE LET R == Quote(m, e, q[1]) IN IF ~R.ok THEN R ELSE QuoteAll(R.h, e, Tail(q), Append(done, R.v))
Block(m, e, q) ==
  IF q = <<>> THEN Good(m, Nil)
  ELSE LET R == Eval(m, e, q[1]) IN IF ~R.ok \/ Len(q) = 1 THEN R ELSE Block(R.h, e, Tail(q))
Let(m, e, ds, body) ==
  IF ds = <<>> THEN Block(m, e, body)
  ELSE IF ~IsL(ds[1]) THEN Fail(m)
  ELSE IF Len(ds[1].l) < 2 THEN Fail(m)
  ELSE IF ~IsY(ds[1].l[1]) THEN Fail(m)
  ELSE LET R == Eval(m, e, ds[1].l[2]) IN IF ~R.ok THEN R ELSE Let(Define(R.h, e, ds[1].l[1].y, R.v), e, Tail(ds), body)
Cond(m, e, q) ==
  IF q = <<>> THEN Good(m, Nil)
  ELSE IF ~IsL(q[1]) THEN Fail(m)
  ELSE IF Len(q[1].l) < 2 THEN Fail(m)
  ELSE LET R == Eval(m, e, q[1].l[1]) IN
       IF ~R.ok THEN R ELSE IF True(R.v) THEN Eval(R.h, e, q[1].l[2]) ELSE Cond(R.h, e, Tail(q))
AndOr(m, e, q, isor, last) ==
  IF q = <<>> THEN Good(m, last)
  ELSE LET R == Eval(m, e, q[1]) IN IF ~R.ok \/ True(R.v) = isor THEN R ELSE AndOr(R.h, e, Tail(q), isor, R.v)

(* a parameter without a value is not defined; "..." has the list of the remaining values *)
Bind(m, e, names, a, k) ==
  IF k > Len(names) THEN m
  ELSE IF names[k] = "..." THEN Define(m, e, "...", [l |-> From(a, k)])
  ELSE Bind(IF k <= Len(a) THEN Define(m, e, names[k], a[k]) ELSE m, e, names, a, k + 1)
Call(m, e, f, a) ==
  IF IsN(f) THEN Native(m, e, f.n, a)
  ELSE IF IsFn(f) THEN Block(Bind(New(m, f.env), Len(m) + 1, f.fn, a, 1), Len(m) + 1, f.body)
  ELSE Fail(m)
MapAll(m, e, f, q, done, keep) ==
  IF q = <<>> THEN Good(m, [l |-> done])
  ELSE LET R == Eval(m, e, [l |-> <<f, Quoted(q[1])>>]) IN
       IF ~R.ok THEN R ELSE MapAll(R.h, e, f, Tail(q), IF ~keep THEN Append(done, R.v) ELSE IF True(R.v) THEN Append(done, q[1]) ELSE done, keep)

Arity(n) == CASE n \in {"list", "*"} -> 0 [] n \in {"cons", "nth", "map", "filter", "==", "!=", "<", "<=", ">", ">=", "apply", "-", "/", "truncate", "range"} -> 2 [] OTHER -> 1
Native(m, e, n, a) ==
  IF Len(a) < Arity(n) THEN Fail(m)
  ELSE
  CASE n = "list" -> Good(m, [l |-> a])
    [] n = "car" -> IF ~IsL(a[1]) \/ a[1] = Nil THEN Fail(m) ELSE Good(m, a[1].l[1])
    [] n = "cdr" -> IF ~IsL(a[1]) THEN Fail(m) ELSE Good(m, [l |-> From(a[1].l, 2)])
    [] n = "cons" -> IF ~IsL(a[2]) THEN Fail(m) ELSE Good(m, [l |-> <<a[1]>> \o a[2].l])
    [] n = "nth" -> IF ~IsI(a[1]) \/ ~IsL(a[2]) THEN Fail(m) ELSE IF a[1].i < 0 THEN Fail(m)
                    ELSE Good(m, IF a[1].i < Len(a[2].l) THEN a[2].l[a[1].i + 1] ELSE Nil)
    [] n = "sort" -> IF ~IsL(a[1]) THEN Fail(m) ELSE Good(m, [l |-> Sorted(a[1].l)])
    [] n = "reverse" -> IF ~IsL(a[1]) THEN Fail(m) ELSE Good(m, [l |-> [k \in 1..Len(a[1].l) |-> a[1].l[Len(a[1].l) + 1 - k]]])
    [] n = "length" -> IF ~IsL(a[1]) THEN Fail(m) ELSE Good(m, [i |-> Len(a[1].l)])
    [] n = "map" -> IF ~IsL(a[2]) THEN Fail(m) ELSE MapAll(m, e, a[1], a[2].l, <<>>, FALSE)
    [] n = "filter" -> IF ~IsL(a[2]) THEN Fail(m) ELSE MapAll(m, e, a[1], a[2].l, <<>>, TRUE)
    [] n = "not" -> Good(m, Bool(~True(a[1])))
    [] n = "==" -> Good(m, Bool(a[1] = a[2]))
    [] n = "!=" -> Good(m, Bool(a[1] # a[2]))
    [] n = "<" -> Good(m, Bool(Less(a[1], a[2])))
    [] n = ">" -> Good(m, Bool(Less(a[2], a[1])))
    [] n = "<=" -> Good(m, Bool(~Less(a[2], a[1])))
    [] n = ">=" -> Good(m, Bool(~Less(a[1], a[2])))
    [] n = "eval" -> Eval(m, e, a[1])
    [] n = "apply" -> IF ~IsL(a[2]) THEN Fail(m) ELSE Eval(m, e, [l |-> <<a[1]>> \o [k \in 1..Len(a[2].l) |-> Quoted(a[2].l[k])]])
    [] n = "+" -> IF ~(IsI(a[1]) \/ IsS(a[1])) THEN Fail(m) ELSE OrFail(m, Sum(a[1], Tail(a)))
    [] n = "-" -> IF ~IsI(a[1]) \/ ~IsI(a[2]) THEN Fail(m) ELSE Good(m, [i |-> a[1].i - a[2].i])
    [] n = "*" -> OrFail(m, Product(1, a))
    [] n \in {"/", "truncate"} -> IF ~IsI(a[1]) \/ ~IsI(a[2]) THEN Fail(m) ELSE IF a[2].i = 0 THEN Fail(m) ELSE Good(m, [i |-> Trunc(a[1].i, a[2].i)])
    [] n = "range" -> IF ~IsI(a[1]) \/ ~IsI(a[2]) THEN Fail(m)
                      ELSE Good(m, [l |-> [k \in 1..(IF a[2].i > a[1].i THEN a[2].i - a[1].i ELSE 0) |-> [i |-> a[1].i + k - 1]]])
    [] n = "is_null" -> Good(m, Bool(a[1] = Nil))
    [] n = "is_symbol" -> Good(m, IF IsY(a[1]) THEN T ELSE Nil)
    [] n = "is_boolean" -> Good(m, IF IsB(a[1]) THEN T ELSE Nil)
    [] n = "is_procedure" -> Good(m, IF IsN(a[1]) \/ (IsFn(a[1]) /\ ~a[1].mac) THEN T ELSE Nil)
    [] n = "is_pair" -> Good(m, IF IsL(a[1]) THEN T ELSE Nil)
    [] n = "is_number" -> Good(m, IF IsI(a[1]) THEN T ELSE Nil)
    [] n = "bound?" -> IF ~IsY(a[1]) THEN Fail(m) ELSE Good(m, IF Lookup(m, e, a[1].y) = None THEN Nil ELSE T)

(* how a value is shown; a native function isn't told from another *)
RECURSIVE Show(_), ShowAll(_)
Show(v) ==
  CASE IsI(v) -> ToString(v.i)
    [] IsS(v) -> v.s
    [] IsY(v) -> v.y
    [] IsB(v) -> IF v.b THEN "T" ELSE "F"
    [] IsL(v) -> IF v = Nil THEN "NIL" ELSE "(" \o ShowAll(v.l) \o ")"
    [] IsN(v) -> "<native_function>"
    [] IsFn(v) -> LET t == "(" \o ShowAll([k \in 1..Len(v.fn) |-> [y |-> v.fn[k]]]) \o ") " \o ShowAll(v.body) IN
                  IF v.mac THEN "(macro " \o t \o ")" ELSE "<func:(lambda " \o t \o ")>"
ShowAll(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN Show(q[1]) ELSE Show(q[1]) \o " " \o ShowAll(Tail(q))
RECURSIVE Enc(_)
Enc(v) ==
  CASE IsL(v) -> [l |-> [k \in 1..Len(v.l) |-> Enc(v.l[k])]]
    [] IsN(v) \/ IsFn(v) -> [f |-> Show(v)]
    [] OTHER -> v

(* eval: one expression; deep: a loop of n rounds by calls at the end of a function; fails: no expression or no result *)
Do(a) ==
  /\ act' = a
  /\ LET R == CASE a.op = "eval" -> Eval(h, 1, a.x)
               [] a.op = "deep" -> Good(h, [i |-> a.n])
               [] a.op = "fails" -> Fail(h) IN
     /\ h' = R.h
     /\ obs' = [ok |-> R.ok, v |-> Enc(R.v), show |-> IF R.ok THEN Show(R.v) ELSE "",
                g |-> [k \in Globals |-> IF k \in DOMAIN R.h[1].e THEN Enc(R.h[1].e[k]) ELSE [none |-> TRUE]]]

Init == h = Init0 /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == h' = Init0 /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* environments are nested as the text is: an environment lies inside an older one *)
Nested == \A k \in 1..Len(h) : h[k].up < k
(* what let and parameters name is gone afterwards *)
Scoped == [][act'.op = "eval" => \A k \in DOMAIN h'[1].e \ DOMAIN h[1].e : k \in Globals]_vars
NativesStay == \A n \in NativeNames : n \in DOMAIN h[1].e
Small == Len(h) < 4
=============================================================================
