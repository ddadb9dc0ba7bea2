------------------------------- MODULE Rename -------------------------------
(* dmv: many files get new names at once.  Names are sequences of one-character strings, a path is a sequence of names.

   at    where each file is (<<>> = gone); files are told apart by their contents
   dirs  folders

   A pattern is a sequence of tokens [k, cs, g]: "ch" one given character, "any" one character, "set" one of several,
   "star" any characters; g is the group in parentheses the token belongs to (0 = none), ng the number of groups. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Acts(_), Inits, Dirs0, Cwd, Depth
VARIABLES at, dirs, act, obs
vars == <<at, dirs, act, obs>>
Core == <<at, dirs>>

Ids == DOMAIN at
Files == {at[i] : i \in {j \in Ids : at[j] # <<>>}}
Under(d, p) == Len(d) <= Len(p) /\ SubSeq(p, 1, Len(d)) = d

(* how a name is matched: where each token ends; an earlier star takes as much as it can *)
RECURSIVE Match(_, _, _, _)
Match(p, q, t, i) ==
  IF t > Len(p) THEN <<i = Len(q), <<>>>>
  ELSE IF p[t].k = "star"
       THEN LET S == {j \in i..Len(q) : Match(p, q, t + 1, j)[1]} IN
            IF S = {} THEN <<FALSE, <<>>>> ELSE <<TRUE, <<Max(S)>> \o Match(p, q, t + 1, Max(S))[2]>>
  ELSE IF i < Len(q) /\ (p[t].k = "any" \/ q[i + 1] \in ToSet(p[t].cs))
       THEN LET r == Match(p, q, t + 1, i + 1) IN <<r[1], <<i + 1>> \o r[2]>>
  ELSE <<FALSE, <<>>>>

Group(p, ends, q, g) ==
  LET T == {t \in 1..Len(p) : p[t].g = g} IN
  IF g = 0 THEN q ELSE IF T = {} THEN <<>>
  ELSE SubSeq(q, (IF Min(T) = 1 THEN 0 ELSE ends[Min(T) - 1]) + 1, ends[Max(T)])

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
(* the replacement: $n is the n-th group, $0 the whole name; what is inserted is not looked at again *)
Replace(a, q) ==
  LET ends == Match(a.pat, q, 1, 0)[2]
      F(st, c) == IF st.d THEN LET N == {n \in 0..a.ng : n <= 9 /\ Digits[n + 1] = c} IN
                               IF N # {} THEN [o |-> st.o \o Group(a.pat, ends, q, CHOOSE n \in N : TRUE), d |-> FALSE]
                               ELSE IF c = "$" THEN [o |-> Append(st.o, "$"), d |-> TRUE]
                               ELSE [o |-> st.o \o <<"$", c>>, d |-> FALSE]
                  ELSE IF c = "$" THEN [st EXCEPT !.d = TRUE] ELSE [st EXCEPT !.o = Append(@, c)]
      r == FoldLeft(F, [o |-> <<>>, d |-> FALSE], a.rep) IN
  IF r.d THEN Append(r.o, "$") ELSE r.o

(* the place a text names, seen from a folder *)
Place(d, x) ==
  LET F(st, c) == IF c = "/" THEN [done |-> Append(st.done, st.now), now |-> <<>>] ELSE [st EXCEPT !.now = Append(@, c)]
      r == FoldLeft(F, [done |-> <<>>, now |-> <<>>], x)
      G(p, n) == IF n = <<>> \/ n = <<".">> THEN p ELSE IF n = <<".", ".">> THEN Front(p) ELSE Append(p, n) IN
  FoldLeft(G, d, Append(r.done, r.now))

Sources(a) == {i \in Ids : /\ at[i] # <<>>
                           /\ IF a.rec THEN Under(Cwd, Front(at[i])) ELSE Front(at[i]) = Cwd
                           /\ Match(a.pat, Last(at[i]), 1, 0)[1]}
Target(a, i) == Place(Front(at[i]), Replace(a, Last(at[i])))
Parents(p) == {SubSeq(p, 1, n) : n \in 1..(Len(p) - 1)}

Wrong(a, S, tg) ==
  \/ \E i, j \in S : i # j /\ Under(tg[i], tg[j])
  \/ \E i \in S : tg[i] = <<>> \/ tg[i] \in dirs \/ Parents(tg[i]) \cap Files # {} \/ (~a.force /\ tg[i] \in Files)

Show(rc, w, d, plan) == [rc |-> rc, at |-> w, nd |-> Cardinality(d), plan |-> plan]
None == [i \in Ids |-> <<>>]
Do(a) ==
  /\ act' = a
  /\ IF a.op = "begin" THEN at' = a.at /\ dirs' = Dirs0 /\ obs' = Show(0, at', dirs', [i \in DOMAIN at' |-> <<>>]) ELSE
     LET S == Sources(a)
         tg == [i \in S |-> Target(a, i)]
         new == [i \in Ids |-> IF i \in S THEN tg[i] ELSE IF \E j \in S : tg[j] = at[i] THEN <<>> ELSE at[i]]
         plan == [i \in Ids |-> IF a.dry /\ i \in S THEN tg[i] ELSE <<>>] IN
     IF Wrong(a, S, tg)
     THEN UNCHANGED <<at, dirs>> /\ obs' = Show(1, at, dirs, None)
     ELSE /\ at' = IF a.dry THEN at ELSE new
          /\ dirs' = IF a.dry THEN dirs ELSE dirs \cup UNION {Parents(tg[i]) : i \in S}
          /\ obs' = Show(0, at', dirs', plan)

Init == at \in Inits /\ dirs = Dirs0 /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == at' \in Inits /\ dirs' = Dirs0 /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Short == TLCGet("level") <= Depth
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* two files are never in one place *)
Apart == \A i, j \in Ids : i # j /\ at[i] # <<>> => at[i] # at[j]
(* without -f no file is lost, and with it only files that were not renamed *)
Kept == [][act'.op = "dmv" => \A i \in Ids : at[i] # <<>> /\ at'[i] = <<>> =>
             act'.force /\ i \notin Sources(act') /\ \E j \in Sources(act') : at'[j] = at[i]]_vars
(* all or nothing; a dry run changes nothing *)
Whole == [][act'.op = "dmv" => /\ obs'.rc = 1 \/ act'.dry => at' = at /\ dirs' = dirs
                               /\ obs'.rc = 0 /\ ~act'.dry => \A i \in Sources(act') : at'[i] = Target(act', i)]_vars
=============================================================================
