------------------------------ MODULE CmdList ------------------------------
(* Evaluation of command lines by a shell session.

   A line is a sequence of jobs  j_1 sep_1 j_2 sep_2 ...  with sep in ";", "&&", "||" (the last one "").
   A job is
     [k |-> "ext", st |-> <<code, ...>>, bg, cap, sep]  a pipeline of external commands with these exit
                                                        codes (-s: killed by signal s), bg = ends with &,
                                                        cap = ends with |>
     [k |-> "cd", d, sep]                               the builtin cd
     [k |-> "nf", sep]                                  a command that does not exist
     [k |-> "sub", in, st, sep]                         a command with an argument $( list ) 
   cwd - the session's working directory.  Fields - what is observed of a line.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Acts(_), Dirs, Fields
VARIABLES cwd, act, obs
vars == <<cwd, act, obs>>
Core == <<cwd>>

Last1(q) == q[Len(q)]
CodeOf(c) == IF c < 0 THEN 1 ELSE c
Status(j, dirs) ==
  CASE j.k = "ext" -> IF j.bg THEN 0 ELSE CodeOf(Last1(j.st))
    [] j.k = "sub" -> CodeOf(Last1(j.st))
    [] j.k = "cd" -> IF j.d \in dirs THEN 0 ELSE 1
Name(p, i, s) == p \o "j" \o ToString(i) \o "s" \o ToString(s)
(* what a job that runs leaves in the log: the last stages of foreground pipelines are ordered *)
Ordered(p, j, i, w) == IF j.k \in {"ext", "sub"} /\ ~(j.k = "ext" /\ j.bg)
                       THEN <<Name(p, i, Len(j.st)) \o " " \o w>> ELSE <<>>
Loose(p, j, i, w) == IF j.k = "ext"
                     THEN [s \in 1..(IF j.bg THEN Len(j.st) ELSE Len(j.st) - 1) |-> Name(p, i, s) \o " " \o w]
                     ELSE <<>>

(* left to right: st = [ran, loose, last, cwd], gate = the separator in front of job i *)
RECURSIVE Eval(_, _, _, _, _)
Eval(p, js, i, gate, st) ==
  IF i > Len(js) THEN st
  ELSE LET j == js[i]
           run == CASE gate = "&&" -> st.last = 0
                    [] gate = "||" -> st.last # 0
                    [] OTHER -> TRUE
           c == Status(j, Dirs) IN
       Eval(p, js, i + 1, j.sep,
            IF ~run THEN st
            ELSE [ran |-> st.ran \o Ordered(p, j, i, st.cwd), loose |-> st.loose \o Loose(p, j, i, st.cwd),
                  last |-> c, cwd |-> IF j.k = "cd" /\ c = 0 THEN j.d ELSE st.cwd,
                  jobs |-> st.jobs \cup {i}])
Start(w) == [ran |-> <<>>, loose |-> <<>>, last |-> 0, cwd |-> w, jobs |-> {}]
(* a substitution is evaluated before the line starts, in a child of the shell: each of its jobs is a process
   of its own, so a cd in it moves nobody *)
SubAct(j, w) == Eval("x", [i \in 1..Len(j.in) |-> j.in[i]], 1, ";", Start(w))
Subs(js, w) == IF js # <<>> /\ js[1].k = "sub" THEN SubAct(js[1], w) ELSE Start(w)
Result(js, w) ==
  IF \E i \in 1..Len(js) : js[i].k = "nf" THEN [Start(w) EXCEPT !.last = 1]
  ELSE LET s == Subs(js, w)
           r == Eval("", js, 1, ";", Start(w)) IN
       [r EXCEPT !.ran = s.ran \o @, !.loose = s.loose \o @]

Do(a) ==
  /\ act' = a
  /\ CASE a.op = "line" ->
          LET r == Result(a.js, cwd) IN
          /\ cwd' = r.cwd
          /\ LET o == [ran |-> r.ran, loose |-> r.loose, rc |-> r.last, cwd |-> r.cwd] IN
             obs' = [f \in Fields |-> o[f]]

Init == cwd = "w" /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == cwd' = "w" /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The property, without an order of evaluation: R is the set of jobs that run. *)
Sat(js, R) == \A i \in 1..Len(js) :
  i \in R <=> \/ i = 1
              \/ js[i - 1].sep = ";"
              \/ LET before == {k \in R : k < i} IN
                 js[i - 1].sep = (IF Status(js[Max(before)], Dirs) = 0 THEN "&&" ELSE "||")
Runnable(js) == js # <<>> /\ ~\E i \in 1..Len(js) : js[i].k = "nf"
GateOk == [][LET js == act'.js
                 r == Eval("", js, 1, ";", Start(cwd)) IN
             Runnable(js) =>
               /\ Sat(js, r.jobs) /\ \A R \in SUBSET (1..Len(js)) : Sat(js, R) /\ 1 \in R => R = r.jobs
               /\ obs'.rc = Status(js[Max(r.jobs)], Dirs)]_vars
(* a line with a command that does not exist runs nothing at all *)
NothingRuns == [][~Runnable(act'.js) => obs'.ran = <<>> /\ obs'.loose = <<>> /\ cwd' = cwd]_vars
=============================================================================
