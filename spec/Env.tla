-------------------------------- MODULE Env --------------------------------
(* Env: shell variables, environment variables and exports; what a child process sees of them; and which file a
   command name stands for.

   Directories are texts without ":"; a PATH is the text of its directories joined by ":".                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Str
CONSTANTS Acts(_), Keys, Sys0, Home
VARIABLES loc, exp, sys, files, cwd, act, obs
vars == <<loc, exp, sys, files, cwd, act, obs>>
Core == <<loc, exp, sys, files, cwd>>

None == "<none>"
Get(m, k) == IF \E e \in m : e[1] = k THEN (CHOOSE e \in m : e[1] = k)[2] ELSE None
Put(m, k, v) == {e \in m : e[1] # k} \cup {<<k, v>>}
Has(m, k) == \E e \in m : e[1] = k

(* what a child sees: an exported shell variable, else the environment variable *)
Child(l, x, s, k) == IF k \in x /\ Has(l, k) THEN Get(l, k) ELSE Get(s, k)
Seen(l, x, s, k) == LET v == Child(l, x, s, k) IN IF k = "TERM" /\ v \in {None, ""} THEN "xterm-256color" ELSE v
(* what $k is *)
Value(l, s, k) == IF Has(l, k) THEN Get(l, k) ELSE Get(s, k)

RECURSIVE Split(_)
Split(p) == LET n == Len(p) at == {i \in 1..n : SubSeq(p, i, i) = ":"}
            IN IF at = {} THEN <<p>>
               ELSE LET f == CHOOSE i \in at : \A j \in at : i <= j
                    IN <<SubSeq(p, 1, f - 1)>> \o Split(SubSeq(p, f + 1, n))
Dirs(l, x, s) == LET p == Child(l, x, s, "PATH") IN IF p = None THEN <<"/bin", "/usr/bin", "/sbin", "/usr/sbin">> ELSE Split(p)
RECURSIVE Join(_)
Join(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o ":" \o Join(Tail(q))
(* the file a name stands for: the first executable one along the PATH *)
Which(l, x, s, f, n) ==
  LET d == Dirs(l, x, s)
      at == {i \in 1..Len(d) : \E e \in f : e.d = d[i] /\ e.n = n /\ e.x}
  IN IF at = {} THEN None ELSE d[CHOOSE i \in at : \A j \in at : i <= j]

SetX(l, x, k, v) == IF k \in x /\ Has(l, k) THEN Put(l, k, v) ELSE l
Same == loc' = loc /\ exp' = exp /\ sys' = sys /\ files' = files /\ cwd' = cwd
RECURSIVE PutAll(_, _)
PutAll(l, q) == IF q = <<>> THEN l ELSE PutAll(IF q[1].v = None THEN l ELSE Put(l, q[1].k, q[1].v), Tail(q))

Do(a) ==
  /\ act' = a
  /\ CASE a.op = "set" ->
            /\ loc' = Put(loc, a.k, a.v) /\ obs' = [rc |-> 0] /\ UNCHANGED <<exp, sys, files, cwd>>
       [] a.op = "setx" ->
            /\ loc' = SetX(loc, exp, a.k, a.v) /\ sys' = Put(sys, a.k, a.v) /\ obs' = [rc |-> 0] /\ UNCHANGED <<exp, files, cwd>>
       [] a.op = "export" ->
            /\ loc' = PutAll(loc, a.q) /\ exp' = exp \cup {a.q[i].k : i \in 1..Len(a.q)} /\ obs' = [rc |-> 0]
            /\ UNCHANGED <<sys, files, cwd>>
       [] a.op = "addpath" ->
            LET p == Join(<<a.d>> \o Dirs(loc, exp, sys)) IN
            /\ loc' = SetX(loc, exp, "PATH", p) /\ sys' = Put(sys, "PATH", p) /\ obs' = [rc |-> 0]
            /\ UNCHANGED <<exp, files, cwd>>
       [] a.op = "mk" -> files' = {e \in files : e.d # a.d \/ e.n # a.n} \cup {[d |-> a.d, n |-> a.n, x |-> a.x]}
                         /\ obs' = [rc |-> 0] /\ UNCHANGED <<loc, exp, sys, cwd>>
       [] a.op = "rm" -> files' = {e \in files : e.d # a.d \/ e.n # a.n} /\ obs' = [rc |-> 0] /\ UNCHANGED <<loc, exp, sys, cwd>>
       [] a.op = "cd" ->
            LET old == Value(loc, sys, "OLDPWD") IN
            IF (a.d = "-" /\ old = None) \/ a.d = "{B}/none" THEN Same /\ obs' = [rc |-> 1]
            ELSE LET d == IF a.d = "-" THEN old ELSE IF a.d = "" THEN Home ELSE a.d IN
                 /\ cwd' = d /\ loc' = SetX(Put(loc, "OLDPWD", cwd), exp, "PWD", d) /\ sys' = Put(sys, "PWD", d) /\ obs' = [rc |-> 0]
                 /\ UNCHANGED <<exp, files>>
       [] a.op = "run" ->
            /\ Same
            /\ LET w == Which(loc, exp, sys, files, a.n) IN
               obs' = IF w = None THEN [rc |-> 1, from |-> None, args |-> <<>>, env |-> <<>>, cwd |-> ""]
                      ELSE [rc |-> 0, from |-> w, cwd |-> cwd,
                            args |-> [i \in 1..Len(a.ks) |-> LET v == Value(loc, sys, a.ks[i]) IN IF v = None THEN "$" \o a.ks[i] ELSE v],
                            env |-> [i \in 1..Len(Keys) |-> Seen(loc, exp, sys, Keys[i])]]
       [] a.op = "at" ->      (* a command named by its place, absolute or relative to the current directory *)
            /\ Same
            /\ LET d == IF a.rel THEN cwd \o "/" \o a.d ELSE a.d
                   ok == \E e \in files : e.d = d /\ e.n = a.n /\ e.x IN
               obs' = IF ~ok THEN [rc |-> 1, from |-> None, cwd |-> ""] ELSE [rc |-> 0, from |-> d, cwd |-> cwd]

InitCore == loc = {} /\ exp = {} /\ sys = Sys0 /\ files = {} /\ cwd = Home
Init == InitCore /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == loc' = {} /\ exp' = {} /\ sys' = Sys0 /\ files' = {} /\ cwd' = Home /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Idx(k) == CHOOSE i \in 1..Len(Keys) : Keys[i] = k
(* a shell variable reaches a child only when it is exported *)
Private == [][act'.op = "set" /\ act'.k \notin exp => \A i \in 1..Len(Keys) : Seen(loc', exp', sys', Keys[i]) = Seen(loc, exp, sys, Keys[i])]_vars
(* an exported value is what the child sees, whatever came before *)
Exported == [][act'.op = "export" => \A i \in 1..Len(act'.q) :
   (act'.q[i].v # None /\ \A j \in (i+1)..Len(act'.q) : act'.q[j].k # act'.q[i].k) => Child(loc', exp', sys', act'.q[i].k) = act'.q[i].v]_vars
SetXSeen == [][act'.op = "setx" => Child(loc', exp', sys', act'.k) = act'.v /\ \A k \in {Keys[i] : i \in 1..Len(Keys)} \ {act'.k} :
   Seen(loc', exp', sys', k) = Seen(loc, exp, sys, k)]_vars
(* exporting a name alone changes no value of an environment variable that has no shell variable *)
ExportKeeps == [][act'.op = "export" => \A k \in {Keys[i] : i \in 1..Len(Keys)} : ~Has(loc', k) => Seen(loc', exp', sys', k) = Seen(loc, exp, sys, k)]_vars
(* the directory added is searched first, by the shell and by its children *)
Added == [][act'.op = "addpath" => Dirs(loc', exp', sys') = <<act'.d>> \o Dirs(loc, exp, sys)]_vars
(* after a directory change the previous one is where "-" leads *)
Back == [][act'.op = "cd" /\ obs'.rc = 0 => Value(loc', sys', "OLDPWD") = cwd]_vars
CdFail == [][act'.op = "cd" /\ obs'.rc = 1 => Core' = Core]_vars
=============================================================================
