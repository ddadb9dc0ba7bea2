------------------------------- MODULE Config -------------------------------
(* Config: what the configuration file and Lisp statements of the session do to the shell.

   c is all a statement can change: al aliases, ab abbreviations, va shell variables, en environment, sy global symbols,
   ac palette actions, hk hooks (newest first), pa folders of PATH, ew commands allowed, mc MCP servers, pr preferences,
   lv safety level, co completions, di folders allowed for settings, zx folders z ignores.

   A file is a sequence of statements; "-" stands for nothing there. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Acts(_), Keys, Base
VARIABLES c, act, obs
vars == <<c, act, obs>>
Core == c

None == [k \in Keys |-> "-"]
Hooks == {"pre-exec", "post-exec", "on-chdir"}
C0 == [al |-> None, ab |-> None, va |-> None, en |-> None, sy |-> [k \in Keys |-> IF k = "length" THEN "native" ELSE "-"],
       ac |-> None, hk |-> [h \in Hooks |-> <<>>], pa |-> Base, ew |-> <<>>, mc |-> <<>>,
       pr |-> [pair |-> FALSE, notify |-> FALSE, thr |-> 10, expl |-> FALSE, ghost |-> TRUE, ai |-> FALSE, fix |-> FALSE],
       lv |-> "normal", co |-> <<>>, di |-> <<>>, zx |-> <<>>]

Range(q) == {q[i] : i \in 1..Len(q)}
Levels == {"strict", "normal", "loose"}
Loaders == {"LD_PRELOAD", "PYTHONPATH"}

(* R: [c, ok]; the effect of a statement; one that fails may have done part of its work *)
Good(x) == [c |-> x, ok |-> TRUE]
Fail(x) == [c |-> x, ok |-> FALSE]
RECURSIVE AddAll(_, _)
AddAll(q, vs) == IF vs = <<>> THEN q ELSE AddAll(IF vs[1] \in Range(q) THEN q ELSE Append(q, vs[1]), Tail(vs))
Stmt(x, s) ==
  CASE s.s = "alias" -> Good([x EXCEPT !.al[s.k] = s.v])
    [] s.s = "abbr" -> Good([x EXCEPT !.ab[s.k] = s.v])
    [] s.s = "vset" -> Good([x EXCEPT !.va[s.k] = s.v])
    [] s.s = "setenv" -> Good([x EXCEPT !.en[s.k] = s.v])
    [] s.s = "define" -> Good([x EXCEPT !.sy[s.k] = s.v])
    [] s.s = "defun" -> Good([x EXCEPT !.sy[s.k] = "fn:" \o s.v])
    [] s.s = "set" -> IF x.sy[s.k] = "-" THEN Fail(x) ELSE Good([x EXCEPT !.sy[s.k] = s.v])
    [] s.s = "action" -> Good([x EXCEPT !.ac[s.k] = s.v])
    [] s.s = "hook" -> IF s.k \in Hooks THEN Good([x EXCEPT !.hk[s.k] = <<s.v>> \o @]) ELSE Fail(x)
    [] s.s = "path" -> Good([x EXCEPT !.pa = <<s.v>> \o @])
    [] s.s = "setpath" -> Good([x EXCEPT !.pa = <<s.k, s.v>>])
    [] s.s = "allow" -> Good([x EXCEPT !.ew = AddAll(@, s.vs)])
    [] s.s = "allowclear" -> Good([x EXCEPT !.ew = <<>>])
    [] s.s = "mcp" -> Good([x EXCEPT !.mc = Append(@, s.k \o ":" \o s.v)])
    [] s.s = "mcpclear" -> Good([x EXCEPT !.mc = <<>>])
    [] s.s = "pref" -> Good([x EXCEPT !.pr[s.k] = s.on])
    [] s.s = "thr" -> Good([x EXCEPT !.pr.notify = s.on, !.pr.thr = s.n])
    [] s.s = "level" -> IF s.v \in Levels THEN Good([x EXCEPT !.lv = s.v]) ELSE Fail(x)
    [] s.s = "auto" -> Good([x EXCEPT !.co = Append(@, s.k \o ":" \o s.v)])
    [] s.s = "direnv" -> Good([x EXCEPT !.di = Append(@, s.v)])
    [] s.s = "zx" -> Good([x EXCEPT !.zx = <<s.k, s.v>>])
    [] s.s = "loader" -> IF x.lv = "loose" THEN Good(x) ELSE Fail(x)
    [] s.s = "bad" -> Fail(x)
    [] s.s = "syntax" -> Fail(x)
RECURSIVE Run(_, _)
Run(x, q) == IF q = <<>> THEN Good(x) ELSE LET R == Stmt(x, q[1]) IN IF ~R.ok THEN R ELSE Run(R.c, Tail(q))
Load(x, a) ==
  IF a.missing THEN Fail(x)
  ELSE LET R == Run([x EXCEPT !.mc = <<>>], a.q) IN IF R.ok THEN R ELSE Fail(x)

Do(a) ==
  /\ act' = a
  /\ LET R == CASE a.op = "eval" -> Stmt(c, a.q)
               [] a.op = "reload" -> Load(c, a)
               [] a.op = "start" -> Load(C0, a) IN
     /\ c' = R.c
     /\ obs' = [ok |-> R.ok, c |-> R.c]

Init == c = C0 /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == c' = C0 /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
FailedChangesNothing == [][act'.op = "reload" /\ ~obs'.ok => c' = c]_vars
FailedStartIsPlain == [][act'.op = "start" /\ ~obs'.ok => c' = C0]_vars
FileServersOnly == [][act'.op = "reload" /\ obs'.ok => Len(c'.mc) <= Len(act'.q)]_vars
Small == Len(c.pa) < 4 /\ Len(c.co) < 2 /\ Len(c.mc) < 2 /\ Len(c.ew) < 2 /\ \A h \in Hooks : Len(c.hk[h]) < 2
=============================================================================
