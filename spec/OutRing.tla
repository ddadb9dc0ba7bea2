------------------------------ MODULE OutRing ------------------------------
(* The store of command outputs: newest first, bounded in entries, bytes per entry and bytes in total.

   A text is [c, w, n, t]: n characters c of w bytes each, t if it was cut (a marker of 16 bytes follows).
   An entry is [k, o, e, x]: the command (k bytes), its stdout and stderr, its status.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Acts(_), Lims
VARIABLES ents, lim, act, obs
vars == <<ents, lim, act, obs>>
Core == <<ents, lim>>

Raw(t) == t.w * t.n
Bytes(t) == Raw(t) + IF t.t THEN 16 ELSE 0
Size(e) == e.k + Bytes(e.o) + Bytes(e.e)
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + Total(Tail(q))
Min2(a, b) == IF a < b THEN a ELSE b

(* what may be left of an entry: everything if it fits, else whole characters of both streams in proportion *)
Cut(t, n) == [c |-> IF n = 0 THEN "" ELSE t.c, w |-> t.w, n |-> n, t |-> n < t.n]
Kept(e) ==
  LET S == Raw(e.o) E == Raw(e.e) IN
  IF S + E <= lim.per THEN {e}
  ELSE LET share == (lim.per * S) \div (S + E) IN
       {[e EXCEPT !.o = Cut(e.o, i), !.e = Cut(e.e, j)] : <<i, j>> \in
          {<<i, j>> \in (0..e.o.n) \X (0..e.e.n) :
             /\ i * e.o.w <= share /\ i * e.o.w > share - e.o.w - 1
             /\ j * e.e.w <= lim.per - i * e.o.w
             /\ (j = e.e.n \/ j * e.e.w > lim.per - i * e.o.w - e.e.w)}}

(* the newest entries that may stay when one of size z arrives *)
RECURSIVE Room(_, _)
Room(q, z) == IF Len(q) < lim.n /\ (q = <<>> \/ Total(q) + z <= lim.tot) THEN q
              ELSE Room(SubSeq(q, 1, Len(q) - 1), z)

None == [k |-> -1]
At(i) == IF i >= 1 /\ i <= Len(ents) THEN ents[i] ELSE None
Show(q) == [i \in 1..Len(q) |-> <<q[i].k, q[i].o.c, q[i].o.n, q[i].o.t, q[i].e.c, q[i].e.n, q[i].e.t, q[i].x>>]
State(q) == [ents |-> Show(q), total |-> Total(q), len |-> Len(q)]

Do(a) ==
  /\ act' = a
  /\ CASE a.op = "new" -> lim' = a.lim /\ ents' = <<>> /\ obs' = State(<<>>)
       [] a.op = "push" -> \E e \in Kept(a.e) : ents' = <<e>> \o Room(ents, Size(e)) /\ obs' = State(ents') /\ UNCHANGED lim
       [] a.op = "clear" -> ents' = <<>> /\ obs' = State(<<>>) /\ UNCHANGED lim
       [] a.op = "get" -> UNCHANGED <<ents, lim>> /\ obs' = (IF At(a.i) = None THEN [none |-> TRUE]
                            ELSE [one |-> Show(<<At(a.i)>>)])

Init == lim \in Lims /\ ents = <<>> /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == lim' = [n |-> 1, per |-> 1, tot |-> 1] /\ ents' = <<>> /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Bounded == Len(ents) <= lim.n /\ (Len(ents) > 1 => Total(ents) <= lim.tot)
EntryBounded == \A i \in 1..Len(ents) : Raw(ents[i].o) + Raw(ents[i].e) <= lim.per
(* only the oldest go, and no more than must *)
Newest == [][act'.op = "push" =>
   /\ ents' # <<>> /\ ents'[1].x = act'.e.x /\ ents'[1].k = act'.e.k
   /\ \A i \in 2..Len(ents') : ents'[i] = ents[i - 1]
   /\ Len(ents') <= Len(ents) => (Len(ents') = lim.n \/ Total(ents') + Size(ents[Len(ents')]) > lim.tot)]_vars
=============================================================================
