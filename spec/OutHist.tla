------------------------------ MODULE OutHist ------------------------------
(* Outputs of the commands of a session, and the ways to use them again.

   A text is [l, z]: its lines, and whether the last one ends with a newline.  An entry is [o, e, x].
   Lines:  run  - a command that writes o and e and exits with x (how: "plain", "cap" |>, "quiet" > file, "bg" &),
                  followed by n filters that append a letter to each line
           use  - arguments $OUT, $ERR, $OUT[i], $ERR[i] of a command
           pipe - | filter, which reads the last output (how: plain, cap, quiet)
           out  - out i > file          list - out --list > file                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Acts(_)
VARIABLES ents, act, obs
vars == <<ents, act, obs>>
Core == <<ents>>

Empty == [l |-> <<>>, z |-> FALSE]
Append1(t, f) == [t EXCEPT !.l = [i \in 1..Len(t.l) |-> t.l[i] \o f]]
RECURSIVE Filter(_, _)
Filter(t, fs) == IF fs = <<>> THEN t ELSE Filter(Append1(t, Head(fs)), Tail(fs))
Closed(t) == [t EXCEPT !.z = t.l # <<>>]

Push(o, e, x) == <<[o |-> o, e |-> e, x |-> x]>> \o ents
(* a captured command is always recorded, with both streams; another one with what it printed, if anything *)
Record(how, o, e, x) == CASE how = "cap" -> Push(o, e, x)
                          [] how = "plain" -> IF o = Empty THEN ents ELSE Push(o, Empty, x)
                          [] OTHER -> ents
Get(i, s) == IF i >= 1 /\ i <= Len(ents) THEN <<IF s = "OUT" THEN ents[i].o ELSE ents[i].e>> ELSE <<>>
Literal(r) == [l |-> <<r.t>>, z |-> FALSE]
Arg(r) == IF Get(r.i, r.s) = <<>> THEN Literal(r) ELSE Get(r.i, r.s)[1]
Preview(t) == [n |-> Len(t.l), first |-> IF t.l = <<>> THEN "(empty)" ELSE t.l[1]]
Min2(a, b) == IF a < b THEN a ELSE b

Do(a) ==
  /\ act' = a
  /\ CASE a.op = "run" ->
            LET o == Filter(a.o, a.f)
                x == IF a.f = <<>> THEN a.x ELSE 0 IN
            /\ ents' = Record(a.how, o, a.e, x)
            /\ obs' = [rc |-> IF a.how = "bg" THEN 0 ELSE x, ents |-> ents', seen |-> IF a.how = "quiet" THEN <<o>> ELSE <<>>]
       [] a.op = "pipe" ->
            LET i == Get(1, "OUT")
                o == Filter(IF i = <<>> THEN Empty ELSE IF i[1] = Empty THEN [l |-> <<"">>, z |-> TRUE] ELSE Closed(i[1]), a.f) IN
            /\ ents' = Record(a.how, o, Empty, 0)
            /\ obs' = [rc |-> 0, ents |-> ents', seen |-> IF a.how = "quiet" THEN <<o>> ELSE <<>>]
       [] a.op = "use" ->
            /\ UNCHANGED ents
            /\ obs' = [rc |-> 0, ents |-> ents, seen |-> [k \in 1..Len(a.r) |-> Arg(a.r[k])]]
       [] a.op = "out" ->
            LET g == Get(a.i, "OUT") IN
            /\ UNCHANGED ents
            /\ obs' = [rc |-> IF g = <<>> THEN 1 ELSE 0, ents |-> ents,
                       seen |-> <<IF g = <<>> THEN Empty ELSE IF g[1] = Empty THEN [l |-> <<"(empty output)">>, z |-> TRUE] ELSE Closed(g[1])>>]
       [] a.op = "list" ->
            /\ UNCHANGED ents
            /\ obs' = [rc |-> 0, ents |-> ents, seen |-> [i \in 1..Min2(Len(ents), 10) |-> Preview(ents[i].o)]]

Init == ents = <<>> /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == ents' = <<>> /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Short == Len(ents) <= 2
(* recorded outputs never change: a line adds at most one, in front *)
Kept == [][LET n == Len(ents') - Len(ents) IN n \in {0, 1} /\ SubSeq(ents', n + 1, Len(ents')) = ents]_vars
(* reading records nothing *)
ReadOnly == [][act'.op \in {"use", "out", "list"} => UNCHANGED ents]_vars
=============================================================================
