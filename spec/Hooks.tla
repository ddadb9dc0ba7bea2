------------------------------- MODULE Hooks -------------------------------
(* Hooks: functions of the configuration that the shell calls around commands, on a change of folder, on entering a
   project, and when a command is not known.

   hk    hooks of each kind: a set of [id, ok]; a hook with ok = FALSE cannot be called at all (it fails before it does
         anything), and any hook may fail after it has done its work
   cwd   the current folder; Projects[d] is the project folder d belongs to, "" if none

   A line is a sequence of jobs [k, id, st, to, sep]: job `id' ends with status st, and sep is what follows it.
   What happens is a log of events; `who' is the set of hooks called, as a sequence in the order of Ids. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Acts(_), Inits, Top, Projects, Ids
VARIABLES hk, cwd, act, obs
vars == <<hk, cwd, act, obs>>
Core == <<hk, cwd>>

Who(kind) == SelectSeq(Ids, LAMBDA i : \E h \in hk[kind] : h.id = i /\ h.ok)
Ev(ev, who, text, st, at) == [ev |-> ev, who |-> who, text |-> text, st |-> st, at |-> at]
Call(kind, text, st) == IF Who(kind) = <<>> THEN <<>> ELSE <<Ev(kind, Who(kind), text, st, "")>>

(* a change of folder; a project's hooks are called when it wasn't the project before *)
Move(from, to) == Call("cd", "", 0) \o
                  (IF Projects[to] # "" /\ Projects[to] # Projects[from] THEN Call("proj", Projects[to], 0) ELSE <<>>)

(* the output of these is seen *)
Loud == {"run", "cap", "struct", "pipe"}
Status(j) == IF j.k = "sbad" THEN 1 ELSE IF j.k = "pipe" \/ j.k = "bg" THEN 0 ELSE j.st
Goes(j) == j.k \in {"cd", "pm"} /\ j.st = 0
Job(s, j) ==
  LET run == IF j.k \in Loud THEN <<Ev("run", <<>>, j.id, 0, s.cwd)>> ELSE <<>>
      move == IF Goes(j) THEN Move(s.cwd, j.to) ELSE <<>>
      post == IF j.k = "bg" THEN <<>> ELSE Call("post", j.id, Status(j)) IN
  IF s.stop \/ (s.gate = "&&" /\ s.last # 0) \/ (s.gate = "||" /\ s.last = 0) THEN [s EXCEPT !.gate = j.sep]
  ELSE IF j.k = "nolaunch" THEN [s EXCEPT !.log = @ \o Call("pre", j.id, 0), !.stop = TRUE]
  ELSE [log |-> s.log \o Call("pre", j.id, 0) \o run \o move \o post, last |-> Status(j), gate |-> j.sep, stop |-> FALSE,
        cwd |-> IF Goes(j) THEN j.to ELSE s.cwd]

Line(jobs) ==
  LET U == {i \in 1..Len(jobs) : jobs[i].k = "unknown"} IN
  IF U # {} THEN [log |-> Call("nf", jobs[CHOOSE i \in U : \A x \in U : i <= x].id, 0), cwd |-> cwd]
  ELSE FoldLeft(Job, [log |-> <<>>, last |-> 0, gate |-> ";", stop |-> FALSE, cwd |-> cwd], jobs)

Do(a) ==
  /\ act' = a
  /\ IF a.op = "begin" THEN hk' = [k \in DOMAIN a.hk |-> ToSet(a.hk[k])] /\ cwd' = Top /\ obs' = <<>>
     ELSE LET r == Line(a.jobs) IN obs' = r.log /\ cwd' = r.cwd /\ UNCHANGED hk

Init == hk \in Inits /\ cwd = Top /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == hk' \in Inits /\ cwd' = Top /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
At(e, k) == {i \in DOMAIN obs : obs[i].ev = e /\ obs[i].text = k}
Jobs == IF act.op = "line" THEN {act.jobs[i].id : i \in DOMAIN act.jobs} ELSE {}
(* what runs is announced once before and reported once after *)
Around == \A k \in Jobs :
            /\ Cardinality(At("pre", k)) <= 1 /\ Cardinality(At("post", k)) <= 1
            /\ \A r \in At("run", k) : /\ Who("pre") # <<>> => \E p \in At("pre", k) : p < r
                                       /\ Who("post") # <<>> => \E p \in At("post", k) : r < p
            /\ \A p \in At("post", k) : Who("pre") # <<>> => \E q \in At("pre", k) : q < p
(* every hook that can be called is called, whatever the others do *)
All == \A i \in DOMAIN obs : obs[i].ev # "run" => obs[i].who = Who(obs[i].ev)
(* an unknown command: nothing of the line runs *)
Unknown == act.op = "line" /\ (\E i \in DOMAIN act.jobs : act.jobs[i].k = "unknown") =>
             \A i \in DOMAIN obs : obs[i].ev = "nf"
(* the change of folder is told exactly when it happens *)
Moves == [][act'.op = "line" /\ cwd' # cwd /\ Who("cd") # <<>> => \E i \in DOMAIN obs' : obs'[i].ev = "cd"]_vars
=============================================================================
