------------------------------ MODULE Secrets ------------------------------
(* Secrets: what of a command line reaches the history, and secrets that live only in the session.

   A line is a sequence of words [k, p, v, r]: a plain word p; an assignment p=v; an option p with its separator
   and value v; a header p with value v; a URL p with parameter value v and rest r.  Texts are written without the
   quotes and backslashes that hold a value together; a redacted word ends at its first mark.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Str
CONSTANTS Acts(_)
VARIABLES mode, kws, pats, ses, act, obs
vars == <<mode, kws, pats, ses, act, obs>>
Core == <<mode, kws, pats, ses>>

Modes == {"skip", "redact", "none"}
Keywords == {"api_key", "_key", "token", "secret", "password", "passwd", "passphrase", "auth", "cookie", "session",
             "credential", "private", "access_key", "secret_key"}
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Cat(_, _)
Cat(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Cat(Tail(q), sep)
(* a pattern is a text anywhere, or at the beginning *)
Hit(p, t) == IF SubSeq(p, 1, 1) = "^" THEN IsPrefixOf(SubSeq(p, 2, Len(p)), t) ELSE ContainsStr(t, p)

SensKey(k) == \/ \E w \in Keywords \cup {ToLower(x) : x \in kws} : ContainsStr(ToLower(k), w)
              \/ \E p \in pats : Hit(p, k)
Plain(x) == CASE x.k = "w" -> x.p [] x.k = "asg" -> x.p \o "=" \o x.v [] OTHER -> x.p \o x.v \o x.r
Text(line) == Cat([i \in 1..Len(line) |-> Plain(line[i])], " ")
Sens(line) == \/ \E i \in 1..Len(line) : line[i].k \in {"opt", "hdr", "url"} \/ (line[i].k = "asg" /\ SensKey(line[i].p))
              \/ \E p \in pats : Hit(p, Text(line))
(* where the first pattern match of a word starts; 0 if none *)
First(x, i) == LET t == Plain(x) n == Len(t)
                   at == {s \in 1..n : \E p \in pats : IF SubSeq(p, 1, 1) = "^" THEN i = 1 /\ s = 1 /\ Hit(p, t)
                                                       ELSE IsPrefixOf(p, SubSeq(t, s, n))}
               IN IF at = {} THEN 0 ELSE CHOOSE s \in at : \A z \in at : s <= z
RedWord(x, i) ==
  LET f == First(x, i)
      own == CASE x.k = "asg" /\ SensKey(x.p) -> Len(x.p) + 2 [] x.k \in {"opt", "hdr", "url"} -> Len(x.p) + 1 [] OTHER -> 0
      at == IF f = 0 THEN own ELSE IF own = 0 THEN f ELSE IF f < own THEN f ELSE own
  IN IF at = 0 THEN Plain(x) ELSE SubSeq(Plain(x), 1, at - 1) \o "***"
Redacted(line) == Cat([i \in 1..Len(line) |-> RedWord(line[i], i)], " ")
Stored(line) == IF mode = "none" \/ ~Sens(line) THEN <<Text(line)>> ELSE IF mode = "redact" THEN <<Redacted(line)>> ELSE <<>>

St == [mode |-> mode, kws |-> kws, pats |-> pats, ses |-> ses]
Conf(R, a) ==
  CASE a.op = "mode" -> IF ToLower(a.v) \in Modes THEN [R EXCEPT !.mode = ToLower(a.v)] ELSE R
    [] a.op = "kw" -> [R EXCEPT !.kws = @ \cup {a.v}]
    [] a.op = "pat" -> IF a.bad THEN R ELSE [R EXCEPT !.pats = @ \cup {a.v}]
    [] a.op = "set" -> [R EXCEPT !.ses = {e \in @ : e[1] # a.k} \cup {<<a.k, a.v>>}]
    [] a.op = "clear" -> [R EXCEPT !.ses = {}]
Ok(a) == CASE a.op = "mode" -> ToLower(a.v) \in Modes [] a.op = "pat" -> ~a.bad [] OTHER -> TRUE
RECURSIVE ConfAll(_, _)
ConfAll(R, q) == IF q = <<>> THEN R ELSE ConfAll(Conf(R, q[1]), Tail(q))
Become(R) == mode' = R.mode /\ kws' = R.kws /\ pats' = R.pats /\ ses' = R.ses
R0 == [mode |-> "skip", kws |-> {}, pats |-> {}, ses |-> {}]
Value(k) == LET e == {e \in ses : e[1] = k} IN IF e = {} THEN "NIL" ELSE (CHOOSE x \in e : TRUE)[2]

Do(a) ==
  /\ act' = a
  /\ CASE a.op = "line" ->
            LET q == IF a.save THEN Stored(a.w) ELSE <<>> IN
            /\ UNCHANGED <<mode, kws, pats, ses>>
            /\ obs' = [mem |-> q, same |-> TRUE, x |-> [i \in 1..Len(q) |-> TRUE],
                       leak |-> q # <<>> /\ \E i \in 1..Len(a.w) : a.w[i].v # "" /\ (mode = "none" \/ RedWord(a.w[i], i) = Plain(a.w[i]))]
       [] a.op = "get" -> UNCHANGED <<mode, kws, pats, ses>> /\ obs' = [v |-> Value(a.k), leak |-> FALSE]
       [] a.op = "reload" ->
            /\ Become(IF a.fail \/ \E i \in 1..Len(a.stmts) : ~Ok(a.stmts[i]) THEN St ELSE ConfAll(St, a.stmts))
            /\ obs' = [ok |-> ~a.fail /\ \A i \in 1..Len(a.stmts) : Ok(a.stmts[i]), mode |-> mode']
       [] a.op = "restart" -> Become(R0) /\ obs' = [ok |-> TRUE]
       [] OTHER -> Become(Conf(St, a)) /\ obs' = [ok |-> Ok(a), mode |-> mode']

Init == mode = "skip" /\ kws = {} /\ pats = {} /\ ses = {} /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == Become(R0) /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* no secret value in what is stored, unless the user turned the filter off *)
NoSecret == [][act'.op = "line" /\ mode # "none" =>
  \A i \in 1..Len(act'.w) : (act'.w[i].k \in {"opt", "hdr", "url"} \/ (act'.w[i].k = "asg" /\ SensKey(act'.w[i].p))) =>
     \A j \in 1..Len(obs'.mem) : ~ContainsStr(obs'.mem[j], act'.w[i].v)]_vars
(* harmless lines are stored as they are; the filter stores or skips, nothing in between *)
Verbatim == [][act'.op = "line" /\ act'.save /\ (mode = "none" \/ ~Sens(act'.w)) => obs'.mem = <<Text(act'.w)>>]_vars
Skipped == [][act'.op = "line" /\ mode = "skip" /\ Sens(act'.w) => obs'.mem = <<>>]_vars
PatternHidden == [][act'.op = "line" /\ mode # "none" =>
  \A j \in 1..Len(obs'.mem), p \in pats : ~Hit(p, obs'.mem[j])]_vars
FailedReload == [][act'.op = "reload" /\ ~obs'.ok => UNCHANGED <<mode, kws, pats, ses>>]_vars
ModeOk == mode \in Modes
=============================================================================
