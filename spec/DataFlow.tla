------------------------------ MODULE DataFlow ------------------------------
(* Where the bytes go: pipelines, redirections, substitutions.

   Data is a sequence of words (lines).  files maps a name to its content; a missing name has no entry.
   A line is a sequence of pipelines run one after the other; a pipeline is a sequence of stages
     [p, a, rd, sub]
   p   - the program: "em" writes <<a>>; "er" writes <<a>> to stderr; "bo" writes <<ae>> to stderr, then <<ao>>;
         "sl" writes a, pauses, and writes the rest <<as>>; "nu" writes <<Na>> where N is a byte that is not UTF-8;
         "big" writes <<G>> (more than any pipe holds, one word here); "fl" copies stdin with a appended to each
         word; "gap" writes empty words and a twice; "ar" writes its arguments (an empty one as @); "rf" copies the files given as arguments; "bi" is a builtin that
         writes <<a>>; "be" is a builtin that writes a message to stderr (<<a>>).
   rd  - its redirections in textual order, [o |-> "<" | ">" | ">>" | "2>" | "2>>" | "&>" | "&>>", f]
   sub - for ar and rf: the arguments, each [k |-> "w", w] a plain word, [k |-> "$", ln] a command substitution
         (split at spaces), [k |-> "(", ln] a subshell argument (one argument per line), [k |-> "<", ln] a process
         substitution, where ln is a line again.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Acts(_), Names
VARIABLES files, act, obs
vars == <<files, act, obs>>
Core == <<files>>

OutOps == {">", ">>", "&>", "&>>"}
ErrOps == {"2>", "2>>", "&>", "&>>"}
Trunc == {">", "2>", "&>"}
LastOp(rd, ops) == LET I == {i \in 1..Len(rd) : rd[i].o \in ops} IN IF I = {} THEN 0 ELSE Max(I)
(* the words of a text: a substitution splits what it reads at blanks (% stands for a tab) *)
RECURSIVE Split(_, _, _)
Split(t, i, w) == IF i > Len(t) THEN (IF w = "" THEN <<>> ELSE <<w>>)
                  ELSE IF SubSeq(t, i, i) \in {" ", "%"} THEN (IF w = "" THEN <<>> ELSE <<w>>) \o Split(t, i + 1, "")
                  ELSE Split(t, i + 1, w \o SubSeq(t, i, i))
Suffix(q, a) == [i \in 1..Len(q) |-> q[i] \o a]
Get(fs, f) == IF f \in DOMAIN fs THEN fs[f] ELSE <<>>
Put(fs, f, c) == [x \in DOMAIN fs \cup {f} |-> IF x = f THEN c ELSE fs[x]]

(* an argument is text: a byte that is not UTF-8 is replaced *)
Lossy(w) == IF Len(w) > 0 /\ SubSeq(w, 1, 1) = "N" THEN "R" \o SubSeq(w, 2, Len(w)) ELSE w
LossyAll(q) == [i \in 1..Len(q) |-> Lossy(q[i])]

(* all redirections of a stage are opened in textual order: created, and truncated unless appended to *)
RECURSIVE Open(_, _, _)
Open(fs, rd, i) == IF i > Len(rd) THEN fs
                   ELSE Open(IF rd[i].o = "<" THEN fs
                             ELSE IF rd[i].o \in Trunc THEN Put(fs, rd[i].f, <<>>)
                             ELSE Put(fs, rd[i].f, Get(fs, rd[i].f)), rd, i + 1)

(* the lines of a text are the arguments of ( ), without the empty ones at its end *)
RECURSIVE Lines(_)
Lines(q) == IF q # <<>> /\ Last(q) = "" THEN Lines(Front(q)) ELSE q
(* empty lines are not compared where they end *)
Seen(q) == SelectSeq(q, LAMBDA w : w # "")

(* A stage: s = [files, out, err] so far, in = its standard input unless redirected.
   Result: [files, pipe (what its stdout passes on), err (what reaches the shell's stderr)]. *)
RECURSIVE RunLine(_, _, _), RunPipe(_, _, _, _), Args(_, _, _), Substs(_, _, _)
Produce(st, in, args, fs) ==
  CASE st.p = "em" -> [o |-> <<st.a>>, e |-> <<>>]
    [] st.p = "bi" -> [o |-> <<st.a>>, e |-> <<>>]
    [] st.p = "er" -> [o |-> <<>>, e |-> <<st.a>>]
    [] st.p = "be" -> [o |-> <<>>, e |-> <<st.a>>]
    [] st.p = "bo" -> [o |-> <<st.a \o "o">>, e |-> <<st.a \o "e">>]
    [] st.p = "sl" -> [o |-> <<st.a \o "s">>, e |-> <<>>]
    [] st.p = "nu" -> [o |-> <<"N" \o st.a>>, e |-> <<>>]
    [] st.p = "big" -> [o |-> <<"G">>, e |-> <<>>]
    [] st.p = "gap" -> [o |-> <<"", st.a, "", st.a, "">>, e |-> <<>>]
    [] st.p = "ar" -> [o |-> [i \in DOMAIN args |-> IF args[i] = "" THEN "@" ELSE args[i]], e |-> <<>>]
    [] st.p = "fl" -> [o |-> Suffix(in, st.a), e |-> <<>>]
    [] st.p = "rf" -> [o |-> args, e |-> <<>>]

Stage(st, in, last, args, s) ==
  LET fs == Open(s.files, st.rd, 1)
      inp == IF LastOp(st.rd, {"<"}) = 0 THEN in ELSE Get(fs, st.rd[LastOp(st.rd, {"<"})].f)
      r == Produce(st, inp, args, fs)
      oi == LastOp(st.rd, OutOps)
      ei == LastOp(st.rd, ErrOps)
      f1 == IF ei = 0 THEN fs ELSE Put(fs, st.rd[ei].f, Get(fs, st.rd[ei].f) \o r.e)
      f2 == IF oi = 0 THEN f1 ELSE Put(f1, st.rd[oi].f, Get(f1, st.rd[oi].f) \o r.o) IN
  [files |-> f2, pipe |-> IF oi = 0 THEN r.o ELSE <<>>, err |-> IF ei = 0 THEN s.err \o r.e ELSE s.err]

RunPipe(pl, i, in, s) ==
  IF i > Len(pl) THEN [s EXCEPT !.out = s.out \o in]
  ELSE LET st == pl[i]
           r == Stage(st, in, i = Len(pl), st.args, s) IN
       RunPipe(pl, i + 1, r.pipe, [files |-> r.files, out |-> s.out, err |-> r.err])
RunLine(ln, i, s) == IF i > Len(ln) THEN s ELSE RunLine(ln, i + 1, RunPipe(ln[i], 1, <<>>, s))

(* Substitutions run first, left to right, with the shell's stderr; their output becomes arguments. *)
Args(q, i, s) ==      \* s = [files, err, args]
  IF i > Len(q) THEN s
  ELSE IF q[i].k = "w" THEN Args(q, i + 1, [s EXCEPT !.args = Append(@, q[i].w)])
  ELSE LET l == Substs(q[i].ln, 1, [files |-> s.files, err |-> s.err, ln |-> <<>>])
           r == RunLine(l.ln, 1, [files |-> l.files, out |-> <<>>, err |-> l.err]) IN
       Args(q, i + 1, [files |-> r.files, err |-> r.err, args |-> s.args \o (CASE q[i].k = "$" -> LossyAll(FlattenSeq([x \in 1..Len(r.out) |-> Split(r.out[x], 1, "")]))
                                                                [] q[i].k = "(" -> LossyAll(Lines(r.out)) [] OTHER -> r.out)])
PlainStage(st, args) == [p |-> st.p, a |-> st.a, rd |-> st.rd, args |-> args]
RECURSIVE SubPipe(_, _, _)
SubPipe(pl, i, s) ==   \* s = [files, err, pl]
  IF i > Len(pl) THEN s
  ELSE LET r == Args(pl[i].sub, 1, [files |-> s.files, err |-> s.err, args |-> <<>>]) IN
       SubPipe(pl, i + 1, [files |-> r.files, err |-> r.err, pl |-> Append(s.pl, PlainStage(pl[i], r.args))])
Substs(ln, i, s) ==
  IF i > Len(ln) THEN s
  ELSE LET r == SubPipe(ln[i], 1, [files |-> s.files, err |-> s.err, pl |-> <<>>]) IN
       Substs(ln, i + 1, [files |-> r.files, err |-> r.err, ln |-> Append(s.ln, r.pl)])

Eval(ln) == LET l == Substs(ln, 1, [files |-> files, err |-> <<>>, ln |-> <<>>]) IN
            RunLine(l.ln, 1, [files |-> l.files, out |-> <<>>, err |-> l.err])
Listing(fs) == LET q == SetToSortSeq(Names \cap DOMAIN fs, LAMBDA a, b : \E i, j \in 1..3 :
                          <<"f1", "f2", "f3">>[i] = a /\ <<"f1", "f2", "f3">>[j] = b /\ i < j) IN
               [i \in 1..Len(q) |-> <<q[i], Seen(fs[q[i]])>>]

Do(a) ==
  /\ act' = a
  /\ LET r == Eval(a.ln) IN
     /\ files' = r.files
     /\ obs' = [out |-> Seen(r.out), err |-> Seen(r.err), files |-> Listing(r.files)]

Empty == [x \in {} |-> <<>>]
Init == files = Empty /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == files' = Empty /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Bounded == \A f \in DOMAIN files : Len(files[f]) <= 1
RECURSIVE Targets(_)
Targets(ln) == UNION {UNION {{ln[i][k].rd[x].f : x \in {x \in 1..Len(ln[i][k].rd) : ln[i][k].rd[x].o # "<"}}
                             \cup UNION {Targets(ln[i][k].sub[y].ln) : y \in {y \in 1..Len(ln[i][k].sub) : ln[i][k].sub[y].k # "w"}}
                             : k \in 1..Len(ln[i])} : i \in 1..Len(ln)}
(* files that no redirection of the line names stay as they are; the others exist afterwards *)
OnlyTargets == [][/\ \A f \in DOMAIN files : f \notin Targets(act'.ln) => f \in DOMAIN files' /\ files'[f] = files[f]
                  /\ DOMAIN files' = DOMAIN files \cup Targets(act'.ln)]_vars
(* a single pipeline of writers and filters without substitution: the destinations, stated without evaluation:
   the output of stage k goes to its file if it names one, else into stage k+1 (which appends its suffix if it is a
   filter reading the pipe and loses it otherwise), else to the terminal *)
Simple(ln) == Len(ln) = 1 /\ \A k \in 1..Len(ln[1]) : ln[1][k].sub = <<>>
RECURSIVE Reaches(_, _, _)
Reaches(pl, k, w) ==    \* where word w, written to stdout by stage k, ends: <<"f", name, w>>, <<"t", "", w>> or <<"gone">>
  LET oi == LastOp(pl[k].rd, OutOps) IN
  IF oi # 0 THEN <<"f", pl[k].rd[oi].f, w>>
  ELSE IF k = Len(pl) THEN <<"t", "", w>>
  ELSE IF pl[k + 1].p = "fl" /\ LastOp(pl[k + 1].rd, {"<"}) = 0 THEN Reaches(pl, k + 1, w \o pl[k + 1].a)
  ELSE <<"gone">>
Source(st) == IF st.p \in {"em", "bi"} THEN <<st.a>> ELSE IF st.p = "bo" THEN <<st.a \o "o">>
              ELSE IF st.p = "big" THEN <<"G">> ELSE <<>>
Count(q, w) == Cardinality({i \in 1..Len(q) : q[i] = w})
Delivered == [][Simple(act'.ln) =>
  LET pl == act'.ln[1] IN
  \A k \in 1..Len(pl) : Source(pl[k]) # <<>> =>
    LET d == Reaches(pl, k, Source(pl[k])[1]) IN
    /\ d[1] = "t" => Count(obs'.out, d[3]) >= 1
    /\ d[1] = "f" => Count(files'[d[2]], d[3]) >= 1
    /\ d[1] = "gone" => obs'.out = <<>> \/ Len(pl) > k]_vars
=============================================================================
