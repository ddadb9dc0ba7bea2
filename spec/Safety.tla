------------------------------ MODULE Safety ------------------------------
(* The safety gate: which commands run without asking, which only when the user agrees.

   A word is [w, q, s]: its text w after expansion, how it is written (plain, quoted, a variable, an alias,
   or a substitution of the jobs s).  A stage is a sequence of words, a job [st, op]: stages joined by pipes and
   the separator after it.  `allow` is the list of permitted texts.

   Lines ask at most once for each substitution, when it is reached, and once for the line itself; refusal stops
   the line before anything of what was refused runs.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Str
CONSTANTS Acts(_)
VARIABLES level, allow, act, obs
vars == <<level, allow, act, obs>>
Core == <<level, allow>>

Levels == {"strict", "normal", "loose"}
SubKinds == {"$(", "(", "<("}
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Cat(_, _)
Cat(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Cat(Tail(q), sep)
RECURSIVE LastSlash(_, _)
LastSlash(s, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = "/" THEN i ELSE LastSlash(s, i - 1)
Base(s) == SubSeq(s, LastSlash(s, Len(s)) + 1, Len(s))
----------------------------------------------------------------------------
(* which commands are dangerous *)
Always == {"dd", "mkfs", "format", "reboot", "shutdown", "poweroff", "mkswap"}
Net == {"curl", "wget", "fetch", "scp"}
Interp == {"sh", "bash", "zsh", "fish", "python", "perl", "ruby", "sudo"}
Readers == {"cat", "less", "more", "head", "tail", "grep", "awk", "sed"}
Short(a, cs) == Len(a) > 1 /\ SubSeq(a, 1, 1) = "-" /\ SubSeq(a, 2, 2) # "-" /\ \E c \in cs : ContainsStr(a, c)
EndsWith(a, w) == Len(a) >= Len(w) /\ SubSeq(a, Len(a) - Len(w) + 1, Len(a)) = w
Secret(a) == \/ \E p \in {".ssh", "id_rsa", "id_ed25519", ".aws/credentials", ".config/gcloud", ".azure", ".env"} : ContainsStr(a, p)
             \/ a \in {"/etc/shadow", "/etc/passwd"} \/ EndsWith(a, "_history")
Upload == {"-d", "--data", "-F", "--form", "-T", "--upload-file", "--post-data", "--post-file"}
Recursive(as) == \E a \in as : a = "--recursive" \/ Short(a, {"r", "R"})
Force(as) == \E a \in as : a = "--force" \/ Short(a, {"f"})

Danger(name, args) ==
  LET n == Base(name) as == Range(args) IN
  \/ n \in Always
  \/ n = "rm" /\ Recursive(as)
  \/ n = "cp" /\ Recursive(as) /\ Force(as)
  \/ n \in {"chmod", "chown"} /\ \E a \in as : a = "--recursive" \/ Short(a, {"R"})
  \/ n \in {"curl", "wget"} /\ as \cap Upload # {}
  \/ n \in Readers /\ \E a \in as : Secret(a)
  \/ n = "git" /\ args # <<>> /\ LET r == Range(Tail(args)) IN
        CASE args[1] = "push" -> r \cap {"--force", "-f", "--force-with-lease"} # {}
          [] args[1] = "clean" -> \E a \in r : ContainsStr(a, "x")
          [] args[1] = "reset" -> "--hard" \in r
          [] OTHER -> FALSE

(* a command named and given separately (lisp command, AI commands) *)
AskCommand(l, al, name, args) ==
  /\ l # "loose" /\ name \notin Range(al) /\ Cat(<<name>> \o args, " ") \notin Range(al)
  /\ (l = "strict" \/ Danger(name, args))
AskEnv(l, key) == l # "loose" /\ key \in {"LD_PRELOAD", "LD_LIBRARY_PATH", "DYLD_INSERT_LIBRARIES", "PYTHONPATH", "PERL5LIB", "RUBYLIB", "NODE_OPTIONS"}
Runners == {"bash", "run_command", "execute_command", "execute", "terminal"}
Mutating == {"write", "edit", "update", "delete", "remove", "create", "execute", "run", "apply", "install", "set", "post", "put",
             "patch", "push", "kill", "start", "stop", "restart", "connect", "disconnect", "submit"}
Reading == {"list", "get", "read", "search", "find", "show", "status", "describe", "fetch", "query", "view", "ls", "stat"}
ReadOnlyTool(t) == LET n == ToLower(t) IN (\A m \in Mutating : ~ContainsStr(n, m)) /\ (\E m \in Reading : ContainsStr(n, m))
(* a tool call: cmd is <<words of its command>> if the arguments are an object with one, else <<>> *)
AskTool(l, al, t, text, cmd) ==
  /\ l # "loose" /\ "mcp:" \o t \notin Range(al) /\ "mcp:" \o t \o ":" \o text \notin Range(al)
  /\ IF t \in Runners THEN (cmd = <<>> \/ AskCommand(l, al, Head(cmd), Tail(cmd)))
     ELSE l = "strict" \/ ~ReadOnlyTool(t)
----------------------------------------------------------------------------
(* lines *)
RECURSIVE JobsText(_)
WordText(x) == IF x.q \in SubKinds THEN x.q \o JobsText(x.s) \o ")" ELSE IF x.q \in {"'", "\""} THEN x.q \o x.w \o x.q ELSE x.w
StageText(st) == Cat([i \in 1..Len(st) |-> WordText(st[i])], " ")
JobText(j) == Cat([i \in 1..Len(j.st) |-> StageText(j.st[i])], " | ")
JobsText(js) == IF js = <<>> THEN "" ELSE JobText(js[1]) \o (IF Len(js) > 1 THEN " " \o js[1].op \o " " \o JobsText(Tail(js)) ELSE "")
(* the words a stage receives: substitutions print nothing here *)
Words(st) == LET q == SelectSeq(st, LAMBDA x : x.q \notin {"$(", "("}) IN
             [i \in 1..Len(q) |-> IF q[i].q = "<(" THEN "/dev/fd" ELSE q[i].w]
Bad(j) == \E k \in 1..Len(j.st) : LET w == Words(j.st[k]) IN
            \/ Danger(w[1], Tail(w))
            \/ k > 1 /\ Base(w[1]) \in Interp /\ Base(Words(j.st[k - 1])[1]) \in Net
(* `curl x ; sh` counts as well *)
After(js, i) == i > 1 /\ Base(Words(js[i].st[1])[1]) \in Interp /\ Base(Words(js[i - 1].st[1])[1]) \in Net
AskJobs(l, al, js) ==
  CASE l = "loose" -> FALSE
    [] l = "strict" -> js # <<>> /\ \E i \in 1..Len(js) : JobText(js[i]) \notin Range(al)
    [] OTHER -> \E i \in 1..Len(js) : JobText(js[i]) \notin Range(al) /\ (Bad(js[i]) \/ After(js, i))
Texts(js) == [i \in 1..Len(js) |-> JobText(js[i])]

(* R: [al, asks, ran, stop, last] *)
Status(j) == IF Base(Words(j.st[Len(j.st)])[1]) = "no" THEN 1 ELSE 0
RECURSIVE Execute(_, _, _)
Execute(R, js, gate) ==
  IF js = <<>> THEN R
  ELSE LET j == js[1]
           run == CASE gate = "&&" -> R.last = 0 [] gate = "||" -> R.last # 0 [] OTHER -> TRUE
           R1 == IF run THEN [R EXCEPT !.ran = R.ran \o [k \in 1..Len(j.st) |-> Cat(Words(j.st[k]), " ")], !.last = Status(j)]
                 ELSE R
       IN Execute(R1, Tail(js), j.op)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
(* the substitutions directly in some jobs, in order *)
Subs(js) == SelectSeq(Flat([i \in 1..Len(js) |-> Flat(js[i].st)]), LAMBDA x : x.q \in SubKinds)
RECURSIVE Gate(_, _, _), RunSubs(_, _, _)
(* substitutions of js first, then js itself *)
Gate(R, js, k) ==
  LET R1 == RunSubs(R, Subs(js), k) IN
  IF R1.stop THEN R1
  ELSE IF ~AskJobs(level, R1.al, js) THEN [Execute(R1, js, ";") EXCEPT !.asks = R1.asks]
  ELSE IF k = "n" THEN [R1 EXCEPT !.asks = @ + 1, !.stop = TRUE]
  ELSE Execute([R1 EXCEPT !.asks = @ + 1, !.al = IF k = "a" THEN @ \o Texts(js) ELSE @], js, ";")
RunSubs(R, xs, k) ==
  IF xs = <<>> \/ R.stop THEN R
  ELSE LET R1 == Gate([R EXCEPT !.last = 0], xs[1].s, k) IN RunSubs(R1, Tail(xs), k)

RECURSIVE AllStages(_)
AllStages(js) == Flat([i \in 1..Len(js) |-> Flat([k \in 1..Len(js[i].st) |->
                    <<Cat(Words(js[i].st[k]), " ")>> \o Flat([x \in 1..Len(js[i].st[k]) |-> AllStages(js[i].st[k][x].s)])])])
Count(q, t) == Cardinality({i \in 1..Len(q) : q[i] = t})
Ran(js, ran) == LET S == AllStages(js) IN [i \in 1..Len(S) |-> Count(ran, S[i])]
----------------------------------------------------------------------------
Do(a) ==
  /\ act' = a
  /\ CASE a.op = "level" ->
            LET l == ToLower(a.l) IN
            /\ level' = (IF l \in Levels THEN l ELSE level)
            /\ obs' = [ok |-> l \in Levels, level |-> level'] /\ UNCHANGED allow
       [] a.op = "allow" -> /\ allow' = Append(allow, a.t) /\ UNCHANGED level /\ obs' = [ok |-> TRUE]
       [] a.op = "clear" -> /\ allow' = <<>> /\ UNCHANGED level /\ obs' = [ok |-> TRUE]
       [] a.op = "line" ->
            LET R == Gate([al |-> allow, asks |-> 0, ran |-> <<>>, stop |-> FALSE, last |-> 0], a.js, a.k) IN
            /\ allow' = R.al /\ UNCHANGED level
            /\ obs' = [rc |-> IF R.stop THEN 130 ELSE R.last, asks |-> R.asks, ran |-> Ran(a.js, R.ran)]
       [] a.op = "lisp" ->
            LET ask == AskCommand(level, allow, a.argv[1], Tail(a.argv)) IN
            UNCHANGED <<level, allow>> /\ obs' = [blocked |-> ask, ran |-> IF ask THEN <<>> ELSE <<Cat(a.argv, " ")>>]
       [] a.op = "setenv" ->
            UNCHANGED <<level, allow>> /\ obs' = [blocked |-> AskEnv(level, a.key), set |-> ~AskEnv(level, a.key)]
       [] a.op = "cmd" -> UNCHANGED <<level, allow>> /\ obs' = [ask |-> AskCommand(level, allow, a.argv[1], Tail(a.argv))]
       [] a.op = "tool" -> UNCHANGED <<level, allow>> /\ obs' = [ask |-> AskTool(level, allow, a.t, a.text, a.cmd)]

Init == level = "normal" /\ allow = <<>> /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == level' = "normal" /\ allow' = <<>> /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Small == Len(allow) <= 3
(* without consent nothing runs that is dangerous or, in strict mode, not permitted by text *)
NoneBefore == [][act'.op = "line" /\ obs'.asks = 0 =>
   /\ level = "strict" => \A i \in 1..Len(act'.js) : obs'.ran = Ran(act'.js, <<>>) \/ JobText(act'.js[i]) \in Range(allow)
   /\ level = "normal" => \A i \in 1..Len(act'.js) : JobText(act'.js[i]) \in Range(allow) \/ ~Bad(act'.js[i])]_vars
(* a refused line without substitutions runs nothing *)
Refused == [][act'.op = "line" /\ obs'.rc = 130 /\ Subs(act'.js) = <<>> => obs'.ran = Ran(act'.js, <<>>)]_vars
(* loose asks never; what was allowed for always is not asked again *)
Loose == [][act'.op = "line" /\ level = "loose" => obs'.asks = 0]_vars
Always1 == [][act'.op = "line" /\ act'.k = "a" => ~AskJobs(level, allow', act'.js)]_vars
Levels2 == level \in Levels
=============================================================================
