------------------------------- MODULE Direnv -------------------------------
(* Settings of folders (.env, .envrc): they hold inside the folder and nowhere else.

   vars    environment variables: sequences of folders (PATH) or of one text (<<>>: not there)
   files   settings: records [d, f, ls]; ls is a sequence of [k, key, v]: "set" a variable, "path" a folder put in front of PATH,
           "junk" a line that sets nothing
   allow   folders whose settings may be applied, in the order they were allowed
   loaded  the folders whose settings are applied, outermost first: [i, was], was: what the variables were before         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions
CONSTANTS Acts(_), Keys, Vars0, Inside, Depth, Dirs, Home, Where
VARIABLES vars, files, allow, loaded, cwd, act, obs
all == <<vars, files, allow, loaded, cwd, act, obs>>
Core == <<vars, files, allow, loaded, cwd>>
None == "<none>"

Has(d, f) == \E x \in files : x.d = d /\ x.f = f
Of(d, f) == (CHOOSE x \in files : x.d = d /\ x.f = f).ls
Settings(d) == IF Has(d, ".env") THEN Of(d, ".env") ELSE IF Has(d, ".envrc") THEN Of(d, ".envrc") ELSE <<>>

Put(v, k, x) == [v EXCEPT ![k] = x]
Apply(v, ls) == FoldLeft(LAMBDA w, l : CASE l.k = "set" -> Put(w, l.key, l.v)
                                         [] l.k = "path" -> Put(w, "PATH", <<l.v>> \o w["PATH"])
                                         [] OTHER -> w, v, ls)
Touched(ls) == {l.key : l \in {x \in ToSet(ls) : x.k = "set"}} \cup {"PATH" : l \in {x \in ToSet(ls) : x.k = "path"}}
Restore(v, was) == [k \in DOMAIN v |-> IF k \in DOMAIN was THEN was[k] ELSE v[k]]

(* the allowed folders around d, outermost first *)
Before(i, j) == Depth[allow[i]] < Depth[allow[j]] \/ (Depth[allow[i]] = Depth[allow[j]] /\ i < j)
Wanted(d) == SetToSortSeq({i \in 1..Len(allow) : <<d, allow[i]>> \in Inside}, Before)
(* how many of them are applied already and stay so *)
Kept(w) == Max({n \in 0..Len(loaded) : n <= Len(w) /\ \A m \in 1..n : loaded[m].i = w[m]})

RECURSIVE Leave(_, _), Enter(_, _, _)
Leave(v, n) == IF n = Len(loaded) THEN v ELSE Restore(Leave(v, n + 1), loaded[n + 1].was)
Enter(v, l, w) ==
  IF Len(l) = Len(w) THEN <<v, l>>
  ELSE LET i == w[Len(l) + 1] ls == Settings(allow[i]) IN
       Enter(Apply(v, ls), Append(l, [i |-> i, was |-> [k \in Touched(ls) |-> v[k]]]), w)

Seen(v) == [i \in 1..Len(Keys) |-> v[Keys[i]]]
Same == UNCHANGED <<vars, files, allow, loaded, cwd>>
Do(a) ==
  /\ act' = a
  /\ CASE a.op = "setx" -> vars' = Put(vars, a.key, a.v) /\ UNCHANGED <<files, allow, loaded, cwd>> /\ obs' = [rc |-> 0]
       [] a.op = "write" -> /\ files' = {x \in files : x.d # a.d \/ x.f # a.f} \cup {[d |-> a.d, f |-> a.f, ls |-> a.ls]}
                            /\ UNCHANGED <<vars, allow, loaded, cwd>> /\ obs' = [rc |-> 0]
       [] a.op = "unlink" -> /\ files' = {x \in files : x.d # a.d \/ x.f # a.f}
                             /\ UNCHANGED <<vars, allow, loaded, cwd>> /\ obs' = [rc |-> 0]
       [] a.op = "allow" -> allow' = Append(allow, a.d) /\ UNCHANGED <<vars, files, loaded, cwd>> /\ obs' = [rc |-> 0]
       [] a.op = "cd" ->
            IF a.d \notin Dirs THEN Same /\ obs' = [rc |-> 1, env |-> Seen(vars), cwd |-> cwd]
            ELSE LET w == Wanted(a.d) n == Kept(w)
                     r == Enter(Leave(vars, n), SubSeq(loaded, 1, n), w) IN
                 /\ cwd' = a.d /\ vars' = r[1] /\ loaded' = r[2] /\ UNCHANGED <<files, allow>>
                 /\ obs' = [rc |-> 0, env |-> Seen(vars'), cwd |-> cwd']
       [] a.op = "which" -> Same /\ LET S == {i \in 1..Len(vars["PATH"]) : vars["PATH"][i] \in Where} IN
                                    obs' = [rc |-> 0, from |-> IF S = {} THEN None ELSE vars["PATH"][Min(S)]]

Start == /\ vars = [k \in ToSet(Keys) |-> Vars0[k]] /\ files = {} /\ allow = <<>> /\ loaded = <<>> /\ cwd = Home
Init == Start /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == /\ vars' = [k \in ToSet(Keys) |-> Vars0[k]] /\ files' = {} /\ allow' = <<>> /\ loaded' = <<>> /\ cwd' = Home
            /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_all
----------------------------------------------------------------------------
(* what is applied is exactly what is allowed around the folder the last cd led to, as far as it was allowed then *)
Around == \A n \in 1..Len(loaded) : <<cwd, allow[loaded[n].i]>> \in Inside
(* with all settings taken back, only what the user set himself remains *)
Clean == [][act'.op # "setx" => Leave(vars, 0)' = Leave(vars, 0)]_all
(* outside of all allowed folders nothing is applied *)
Outside == [][act'.op = "cd" /\ obs'.rc = 0 /\ {r \in ToSet(allow) : <<act'.d, r>> \in Inside} = {} =>
               loaded' = <<>> /\ vars' = Leave(vars, 0)]_all
=============================================================================
