------------------------------- MODULE Words -------------------------------
(* Words: from the words of a command line to the arguments its commands get.

   A word is a sequence of parts [k, t, q]: plain text "p" (special characters escaped), single quotes "s", double
   quotes "d" with q the sequence of its texts and variables [v, t], a variable "v", a home folder "t" with what follows
   it; or it is a pattern [pre, cs]: a place and for each level of it a sequence of items: a text, "star", "q",
   "set" of characters, or "br" of alternatives.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Str
CONSTANTS Acts(_), Home, Base, Sys0, Fs0, Order
VARIABLES loc, sys, al, fs, act, obs
vars == <<loc, sys, al, fs, act, obs>>
Core == <<loc, sys, al, fs>>

None == "<none>"
Get(m, k) == IF \E e \in m : e[1] = k THEN (CHOOSE e \in m : e[1] = k)[2] ELSE None
Has(m, k) == \E e \in m : e[1] = k
Put(m, k, v) == {e \in m : e[1] # k} \cup {<<k, v>>}
Value(k) == IF Has(loc, k) THEN Get(loc, k) ELSE Get(sys, k)
Var(k) == IF Value(k) = None THEN "$" \o k ELSE Value(k)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
Part(x) == CASE x.k \in {"p", "s"} -> x.t
             [] x.k = "v" -> Var(x.t)
             [] x.k = "t" -> Home \o x.t
             [] x.k = "d" -> Cat([i \in 1..Len(x.q) |-> IF x.q[i].v THEN Var(x.q[i].t) ELSE x.q[i].t])

(* alternatives: the leftmost varies slowest *)
RECURSIVE Flat(_), Alts(_), AltsAll(_), Match(_, _), Text(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Alts(c) == IF c = <<>> THEN <<<<>>>>
           ELSE IF c[1].k # "br" THEN LET rest == Alts(Tail(c)) IN [i \in 1..Len(rest) |-> <<c[1]>> \o rest[i]]
           ELSE Flat([j \in 1..Len(c[1].o) |-> Alts(c[1].o[j] \o Tail(c))])
AltsAll(cs) == IF cs = <<>> THEN <<<<>>>>
               ELSE LET h == Alts(cs[1]) t == AltsAll(Tail(cs)) IN Flat([i \in 1..Len(h) |-> [j \in 1..Len(t) |-> <<h[i]>> \o t[j]]])
Match(c, s) ==
  IF c = <<>> THEN s = ""
  ELSE CASE c[1].k = "lit" -> IsPrefixOf(c[1].t, s) /\ Match(Tail(c), SubSeq(s, Len(c[1].t) + 1, Len(s)))
         [] c[1].k = "star" -> \E n \in 0..Len(s) : Match(Tail(c), SubSeq(s, n + 1, Len(s)))
         [] c[1].k = "q" -> Len(s) > 0 /\ Match(Tail(c), SubSeq(s, 2, Len(s)))
         [] c[1].k = "set" -> Len(s) > 0 /\ ContainsStr(c[1].t, SubSeq(s, 1, 1)) /\ Match(Tail(c), SubSeq(s, 2, Len(s)))
Text(c) == IF c = <<>> THEN ""
           ELSE (CASE c[1].k = "lit" -> c[1].t [] c[1].k = "star" -> "*" [] c[1].k = "q" -> "?" [] c[1].k = "set" -> "[" \o c[1].t \o "]") \o Text(Tail(c))
RECURSIVE Path(_), Rank(_, _), LessPath(_, _)
Path(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o Path(Tail(q))
Rank(c, i) == IF SubSeq(Order, i, i) = c THEN i ELSE Rank(c, i + 1)
RECURSIVE LessStr(_, _)
LessStr(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                 ELSE IF SubSeq(a, 1, 1) = SubSeq(b, 1, 1) THEN LessStr(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
                 ELSE Rank(SubSeq(a, 1, 1), 1) < Rank(SubSeq(b, 1, 1), 1)
LessPath(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] = b[1] THEN LessPath(Tail(a), Tail(b)) ELSE LessStr(a[1], b[1])
RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ LessPath(x, y) IN <<m>> \o Sort(S \ {m})

Magic(cs) == \E i \in 1..Len(cs) : \E j \in 1..Len(cs[i]) : cs[i][j].k \in {"star", "q", "set"}
(* the folder a pattern starts in, and how what it finds is written *)
Top(pre) == IF pre = "~/" THEN "home" ELSE "w"
Shown(pre) == CASE pre = "~/" -> Home \o "/" [] pre = "/" -> Base \o "/w/" [] OTHER -> pre
Pattern(w) ==
  LET one(cs) == LET txt == Shown(w.pre) \o Path([i \in 1..Len(cs) |-> Text(cs[i])])
                     hits == {f \in fs : Len(f) = Len(cs) + 1 /\ f[1] = Top(w.pre) /\ \A i \in 1..Len(cs) : Match(cs[i], f[i + 1])}
                     q == Sort(hits)
                 IN IF txt = "" THEN <<>>
                    ELSE IF ~Magic(cs) \/ hits = {} THEN <<txt>>
                    ELSE [i \in 1..Len(q) |-> Shown(w.pre) \o Path(Tail(q[i]))]
      a == AltsAll(w.cs)
  IN Flat([i \in 1..Len(a) |-> one(a[i])])
Word(w) == IF w.meta THEN Pattern(w) ELSE <<Cat([i \in 1..Len(w.ps) |-> Part(w.ps[i])])>>
Words(ws) == Flat([i \in 1..Len(ws) |-> Word(ws[i])])
(* the command and its arguments: an alias stands for its words *)
Cmd(c) == IF c.k = "alias" /\ Has(al, c.n)
          THEN [cmd |-> "av", args |-> Words(Get(al, c.n)) \o Words(c.ws)]
          ELSE [cmd |-> IF c.k = "var" THEN "av" ELSE c.n, args |-> Words(c.ws)]

Do(a) ==
  /\ act' = a
  /\ CASE a.op = "line" -> UNCHANGED <<loc, sys, al, fs>> /\ obs' = [rc |-> 0, runs |-> [i \in 1..Len(a.cs) |-> Cmd(a.cs[i])]]
       [] a.op = "var" -> loc' = Put(loc, a.k, a.v) /\ obs' = [rc |-> 0] /\ UNCHANGED <<sys, al, fs>>
       [] a.op = "env" -> sys' = Put(sys, a.k, a.v) /\ obs' = [rc |-> 0] /\ UNCHANGED <<loc, al, fs>>
       [] a.op = "alias" -> al' = Put(al, a.n, a.ws) /\ obs' = [rc |-> 0] /\ UNCHANGED <<loc, sys, fs>>
       [] a.op = "touch" -> fs' = fs \cup {SubSeq(a.f, 1, n) : n \in 2..Len(a.f)} /\ obs' = [rc |-> 0] /\ UNCHANGED <<loc, sys, al>>
       [] a.op = "rm" -> fs' = fs \ {a.f} /\ obs' = [rc |-> 0] /\ UNCHANGED <<loc, sys, al>>

Init == loc = {} /\ sys = Sys0 /\ al = {} /\ fs = Fs0 /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == loc' = {} /\ sys' = Sys0 /\ al' = {} /\ fs' = Fs0 /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Args(i) == obs'.runs[i].args
(* without patterns and aliases every word is one argument, whatever the values hold *)
OneEach == [][act'.op = "line" => \A i \in 1..Len(act'.cs) :
   (act'.cs[i].k # "alias" /\ \A j \in 1..Len(act'.cs[i].ws) : ~act'.cs[i].ws[j].meta) => Len(Args(i)) = Len(act'.cs[i].ws)]_vars
(* what is in single quotes or escaped depends on nothing *)
Quoted == [][act'.op = "line" => \A i \in 1..Len(act'.cs) : \A j \in 1..Len(act'.cs[i].ws) :
   (act'.cs[i].k # "alias" /\ (\A h \in 1..Len(act'.cs[i].ws) : ~act'.cs[i].ws[h].meta)
    /\ \A h \in 1..Len(act'.cs[i].ws[j].ps) : act'.cs[i].ws[j].ps[h].k \in {"p", "s"})
   => Args(i)[j] = Cat([h \in 1..Len(act'.cs[i].ws[j].ps) |-> act'.cs[i].ws[j].ps[h].t])]_vars
=============================================================================
