------------------------------- MODULE Agent -------------------------------
(* Agent: an AI chat whose model asks for tools.  What the tools reach, what they change, what they start, and when the
   user is asked.

   Files: a function from places (sequences of names below a scratch root) to nodes [k, t, to]: "d" a folder, "f" a file
   with text t, "l" a symbolic link to the place `to`.  W is the current folder, S the skills folder.
   A path is [b, cs]: relative to W, absolute, from the home folder, or after a variable.
   A program is [k |-> "n", n, p] (a name) or [k |-> "p", n, p] (a path).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Str
CONSTANTS Acts(_), Names, W, S, Home, Fs0, Texts, Hits, Bin
VARIABLES fs, rules, allow, env, file, act, obs
vars == <<fs, rules, allow, env, file, act, obs>>
Core == <<fs, rules, allow, env, file>>

Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Starts(p, q) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
RECURSIVE JoinStr(_, _)
JoinStr(q, s) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o s \o JoinStr(Tail(q), s)

(* names in the order of their bytes *)
Pos(n) == CHOOSE i \in 1..Len(Names) : Names[i] = n
RECURSIVE Less(_, _), SortP(_)
Less(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
              ELSE IF p[1] = q[1] THEN Less(Tail(p), Tail(q)) ELSE Pos(p[1]) < Pos(q[1])
SortP(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X \ {x} : Less(x, y) IN <<m>> \o SortP(X \ {m})

----------------------------------------------------------------------------
(* places *)
Is(f, p, k) == p \in DOMAIN f /\ f[p].k = k
RECURSIVE Res(_, _, _, _)
(* the place a path leads to, or a failure; <<"..">> is anywhere above the root *)
Res(f, cur, rest, fuel) ==
  LET no == [ok |-> FALSE, p |-> <<>>] IN
  IF fuel = 0 THEN no
  ELSE IF rest = <<>> THEN [ok |-> TRUE, p |-> cur]
  ELSE IF ~Is(f, cur, "d") THEN no
  ELSE IF rest[1] = "." THEN Res(f, cur, Tail(rest), fuel)
  ELSE IF rest[1] = ".." THEN IF cur = <<>> THEN [ok |-> TRUE, p |-> <<"..">>] ELSE Res(f, Front(cur), Tail(rest), fuel)
  ELSE LET c == Append(cur, rest[1]) IN
       IF c \notin DOMAIN f THEN no
       ELSE IF f[c].k = "l" THEN Res(f, <<>>, f[c].to \o Tail(rest), fuel - 1)
       ELSE Res(f, c, Tail(rest), fuel)
RECURSIVE Anc(_, _, _)
Anc(f, abs, suf) ==
  LET r == Res(f, <<>>, abs, 9) IN
  IF r.ok THEN [ok |-> TRUE, p |-> r.p \o suf]
  ELSE IF abs = <<>> \/ Last(abs) = ".." THEN [ok |-> FALSE, p |-> <<>>]
  ELSE LET up == Res(f, <<>>, Front(abs), 9) IN
       IF up.ok /\ Is(f, Append(up.p, Last(abs)), "l") THEN [ok |-> FALSE, p |-> <<>>]
       ELSE Anc(f, Front(abs), <<Last(abs)>> \o suf)
Abs(x) == CASE x.b = "rel" -> W \o x.cs [] x.b = "abs" -> x.cs [] x.b = "home" -> Home \o x.cs [] x.b = "VD" -> W \o <<"d">> \o x.cs
            [] OTHER -> <<>>
NoDots(q) == SelectSeq(q, LAMBDA c : c # ".")
Inside(p) == Starts(p, W) \/ Starts(p, S)
(* where a tool's path leads, if it may be used *)
Reach(f, x) == IF x.b \in {"VU", "blank"} THEN [ok |-> FALSE, p |-> <<>>]
               ELSE LET r == Anc(f, NoDots(Abs(x)), <<>>) IN [ok |-> r.ok /\ Inside(r.p), p |-> r.p]

----------------------------------------------------------------------------
(* what the .gitignore of W excludes *)
EndsIn(s, e) == Len(e) <= Len(s) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
Fits(r, rel, dir) == CASE r.k = "dir" -> dir /\ Last(rel) = r.n
                       [] r.k \in {"name", "not"} -> Last(rel) = r.n
                       [] r.k = "ext" -> EndsIn(Last(rel), r.n)
                       [] r.k = "root" -> JoinStr(rel, "/") = r.n
                       [] OTHER -> FALSE
Self(rs, rel, dir) == LET h == {i \in 1..Len(rs) : Fits(rs[i], rel, dir)}
                      IN h # {} /\ rs[CHOOSE i \in h : \A j \in h : j <= i].k # "not"
IsDir(f, p) == LET r == Res(f, <<>>, p, 9) IN r.ok /\ Is(f, r.p, "d")
Ignored(f, rs, p) ==
  IF Starts(p, W) /\ Len(p) > Len(W)
  THEN LET rel == SubSeq(p, Len(W) + 1, Len(p)) IN
       Self(rs, rel, IsDir(f, p)) \/ \E n \in 1..(Len(rel) - 1) : Self(rs, SubSeq(rel, 1, n), TRUE)
  (* rules that are names hold for what lies in the skills folder, too *)
  ELSE p # <<>> /\ Self(rs, <<"", Last(p)>>, IsDir(f, p))

----------------------------------------------------------------------------
(* the file tools *)
T(id) == CHOOSE t \in Texts : t.id = id
Show(p) == IF Starts(p, W) THEN JoinStr(SubSeq(p, Len(W) + 1, Len(p)), "/") ELSE "{B}/" \o JoinStr(p, "/")
Err == "err"
Read(f, rs, x) ==
  LET r == Reach(f, x) IN
  IF ~r.ok \/ Ignored(f, rs, r.p) \/ ~Is(f, r.p, "f") THEN Err
  ELSE LET t == T(f[r.p].t) kept == IF t.size <= 4096 THEN t.size ELSE (4096 \div t.w) * t.w
       IN IF ~t.ok THEN Err ELSE "read " \o t.id \o " " \o ToString(kept) \o " " \o ToString(t.size - kept)
(* the sizes shown for these names are left open: the size of a link is that of its text *)
Opaque(f, p) == f[p].k = "l" \/ Last(p) \in {".gitignore", "l1", "l2", "l3", "l4", "l5", "l6", "l7", "l8", "l9"}
Ls(f, rs, x) ==
  LET r == Reach(f, x) IN
  IF ~r.ok \/ ~Is(f, r.p, "d") \/ Ignored(f, rs, r.p) THEN Err
  ELSE LET es == SortP({p \in DOMAIN f : Len(p) = Len(r.p) + 1 /\ Starts(p, r.p) /\ ~Ignored(f, rs, p)})
       IN "ls " \o JoinStr([i \in 1..Len(es) |-> IF f[es[i]].k = "d" THEN "d - " \o Last(es[i])
                            ELSE IF Opaque(f, es[i]) THEN "- ? " \o Last(es[i])
                            ELSE "- " \o ToString(T(f[es[i]].t).size) \o " " \o Last(es[i])], ";")
Glob(g, p) == CASE g.k = "name" -> Last(p) = g.n
                [] g.k = "ext" -> EndsIn(Last(p), g.n)
                [] g.k = "two" -> Len(p) > 1 /\ JoinStr(SubSeq(p, Len(p) - 1, Len(p)), "/") = g.n
                [] g.k = "all" -> TRUE
Hidden(n) == SubSeq(n, 1, 1) = "."
Search(f, rs, x, Want(_)) ==
  LET r == Reach(f, x) IN
  IF ~r.ok \/ r.p \notin DOMAIN f THEN Err
  ELSE LET es == SortP({p \in DOMAIN f : Starts(p, r.p) /\ f[p].k # "d" /\ (\A i \in (Len(r.p)+1)..Len(p) : ~Hidden(p[i]))
                                         /\ ~Ignored(f, rs, p) /\ Want(p)})
       IN "found " \o JoinStr([i \in 1..Len(es) |-> Show(es[i])], ";")
Find(f, rs, c) == Search(f, rs, c.p, LAMBDA p : Glob(c.g, p))
Grep(f, rs, c) == Search(f, rs, c.p, LAMBDA p : f[p].k = "f" /\ <<f[p].t, c.q>> \in Hits)

(* edit: [f, r, asked] *)
NewDirs(f, p) == {SubSeq(p, 1, n) : n \in 1..(Len(p) - 1)} \ DOMAIN f
Edit(f, rs, c, yes) ==
  LET r == Reach(f, c.p) keep(x, n) == [f |-> f, r |-> x, n |-> n] IN
  IF ~r.ok \/ Ignored(f, rs, r.p) THEN keep(Err, 0)
  ELSE IF ~yes THEN keep("no", 1)
  ELSE IF Is(f, r.p, "d") \/ (\E n \in 1..(Len(r.p) - 1) : SubSeq(r.p, 1, n) \in DOMAIN f /\ ~Is(f, SubSeq(r.p, 1, n), "d")) THEN keep(Err, 1)
  ELSE [f |-> [p \in {r.p} |-> [k |-> "f", t |-> c.c, to |-> <<>>]] @@ [p \in NewDirs(f, r.p) |-> [k |-> "d", t |-> "", to |-> <<>>]] @@ f,
        r |-> "wrote " \o ToString(T(c.c).size), n |-> 1]

----------------------------------------------------------------------------
(* execute *)
Shells == {"bash", "zsh", "fish"}
Interps == {"python3", "perl", "node"}
Plain(ch) == ContainsStr("BEIOSVabdefhiklmnopqrstuvwx", ch)
RECURSIVE Flagged(_, _)
Flagged(s, set) == s # "" /\ (SubSeq(s, 1, 1) \in set \/ (Plain(SubSeq(s, 1, 1)) /\ Flagged(SubSeq(s, 2, Len(s)), set)))
Eval(pr, as) == LET base == IF pr.k = "n" THEN pr.n ELSE Last(pr.p.cs)
                    has(set) == \E i \in 1..Len(as) : as[i] # "" /\ SubSeq(as[i], 1, 1) = "-" /\ Flagged(SubSeq(as[i], 2, Len(as[i])), set)
                IN (base \in Shells /\ has({"c"})) \/ (base \in Interps /\ has({"c", "e"}))
Oper(w) == ContainsStr(w, "$(") \/ \E c \in {"`", "\n", "|", "&", ";", ">", "<"} : ContainsStr(w, c)
Entry(e, pr, as) == e.pr = pr /\ (e.as = <<>> \/ e.as = as)
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Prog(pr) == IF pr.k = "n" THEN pr.n ELSE CASE pr.p.b = "rel" -> "./" \o JoinStr(pr.p.cs, "/") [] pr.p.b = "abs" -> "{B}/" \o JoinStr(pr.p.cs, "/")
                                         [] OTHER -> "~/" \o JoinStr(pr.p.cs, "/")
(* [r, asked, runs] *)
Exec(f, al, en, fi, c, yes) ==
  LET pr == c.pr as == c.as out(r, n, q) == [r |-> r, n |-> n, q |-> q] IN
  IF Oper(Prog(pr)) \/ (\E i \in 1..Len(as) : Oper(as[i])) THEN out(Err, 0, <<>>)
  ELSE IF Eval(pr, as) \/ (en = <<>> /\ fi.bad) THEN out(Err, 0, <<>>)
  ELSE LET list == IF en # <<>> THEN SeqSet(en) ELSE SeqSet(al) \cup SeqSet(fi.v)
           ok == \E e \in list : Entry(e, pr, as)
           r == IF pr.k = "p" THEN Reach(f, pr.p) ELSE [ok |-> FALSE, p |-> <<>>]
           skill == r.ok /\ Starts(r.p, S)
           at == IF pr.k = "p" /\ pr.p.b # "home" THEN Res(f, <<>>, Abs(pr.p), 9) ELSE [ok |-> FALSE, p |-> <<>>]
           runs == IF pr.k = "n" THEN pr.n \in Bin ELSE at.ok /\ Is(f, at.p, "f") /\ f[at.p].t = "sc"
       IN IF ~ok /\ ~skill THEN out(Err, 0, <<>>)
          ELSE IF skill /\ ~yes THEN out("no", 1, <<>>)
          ELSE LET n == IF skill THEN 1 ELSE 0 IN
               IF ~runs THEN out(Err, n, <<>>)
               ELSE out("ran " \o (IF pr.k = "n" /\ pr.n = "x3" THEN "3" ELSE "0"), n, << JoinStr(<<Prog(pr)>> \o as, "|") >>)

----------------------------------------------------------------------------
(* the calls of one reply of the model, in order; each question takes the next answer *)
RECURSIVE All(_, _, _, _)
All(f, q, ans, acc) ==
  IF q = <<>> THEN [f |-> f, res |-> acc.res, n |-> acc.n, runs |-> acc.runs]
  ELSE LET c == q[1] yes == ans # <<>> /\ ans[1] IN
       CASE c.t = "edit" -> LET e == Edit(f, rules, c, yes) IN
              All(e.f, Tail(q), IF e.n = 1 THEN Tail(ans) ELSE ans, [acc EXCEPT !.res = Append(@, e.r), !.n = @ + e.n])
         [] c.t = "exec" -> LET e == Exec(f, allow, env, file, c, yes) IN
              All(f, Tail(q), IF e.n = 1 THEN Tail(ans) ELSE ans, [acc EXCEPT !.res = Append(@, e.r), !.n = @ + e.n, !.runs = @ \o e.q])
         [] c.t = "mcp" ->
              All(f, Tail(q), Tail(ans), [acc EXCEPT !.res = Append(@, IF yes THEN "pong" ELSE "no"), !.n = @ + 1,
                                                     !.runs = @ \o (IF yes THEN << "mcp|Ping Me|" \o c.x >> ELSE <<>>)])
         [] OTHER -> LET r == CASE c.t = "read" -> Read(f, rules, c.p) [] c.t = "ls" -> Ls(f, rules, c.p)
                                [] c.t = "find" -> Find(f, rules, c) [] c.t = "grep" -> Grep(f, rules, c) [] OTHER -> Err
                     IN All(f, Tail(q), ans, [acc EXCEPT !.res = Append(@, r)])
Node(n) == CASE n.k = "d" -> "d" [] n.k = "l" -> "l{B}/" \o JoinStr(n.to, "/") [] OTHER -> "f" \o n.t
Diff(f, g) == LET ps == SortP({p \in DOMAIN g : p \notin DOMAIN f \/ f[p] # g[p]})
              IN JoinStr([i \in 1..Len(ps) |-> JoinStr(ps[i], "/") \o "=" \o Node(g[ps[i]])], ";")
              \o (IF DOMAIN f \subseteq DOMAIN g THEN "" ELSE ";gone")

Put(p, n) == IF Is(fs, p, "d") THEN fs ELSE [x \in {p} |-> n] @@ fs
Do(a) ==
  /\ act' = a
  /\ CASE a.op = "put" -> fs' = Put(a.p, [k |-> "f", t |-> a.t, to |-> <<>>]) /\ obs' = [rc |-> 0] /\ UNCHANGED <<rules, allow, env, file>>
       [] a.op = "link" -> fs' = Put(a.p, [k |-> "l", t |-> "", to |-> a.to]) /\ obs' = [rc |-> 0] /\ UNCHANGED <<rules, allow, env, file>>
       [] a.op = "rules" -> rules' = a.rs /\ fs' = Put(Append(W, ".gitignore"), [k |-> "f", t |-> "gi", to |-> <<>>]) /\ obs' = [rc |-> 0] /\ UNCHANGED <<allow, env, file>>
       [] a.op = "allow" -> allow' = Append(allow, a.e) /\ obs' = [rc |-> 0] /\ UNCHANGED <<fs, rules, env, file>>
       [] a.op = "env" -> env' = a.v /\ obs' = [rc |-> 0] /\ UNCHANGED <<fs, rules, allow, file>>
       [] a.op = "file" -> file' = [bad |-> a.bad, v |-> a.v] /\ obs' = [rc |-> 0] /\ UNCHANGED <<fs, rules, allow, env>>
       [] a.op = "chat" ->
            LET r == All(fs, a.calls, a.ans, [res |-> <<>>, n |-> 0, runs |-> <<>>]) IN
            /\ fs' = r.f
            /\ obs' = [rc |-> 0, res |-> r.res, asked |-> r.n, diff |-> Diff(fs, r.f), runs |-> r.runs]
            /\ UNCHANGED <<rules, allow, env, file>>

NoFile == [bad |-> FALSE, v |-> <<>>]
Init == fs = Fs0 /\ rules = <<>> /\ allow = <<>> /\ env = <<>> /\ file = NoFile /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == fs' = Fs0 /\ rules' = <<>> /\ allow' = <<>> /\ env' = <<>> /\ file' = NoFile /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Chat == act'.op = "chat"
Changed == {p \in DOMAIN fs' : p \notin DOMAIN fs \/ fs[p] # fs'[p]}
(* nothing changes outside the two folders, nor what .gitignore excludes *)
Contained == [][Chat => \A p \in Changed : Inside(p) /\ (fs'[p].k = "f" => ~Ignored(fs, rules, p))]_vars
(* nothing disappears, and links stay *)
Kept == [][Chat => DOMAIN fs \subseteq DOMAIN fs' /\ \A p \in DOMAIN fs : fs[p].k # "f" => fs'[p] = fs[p]]_vars
(* without a yes nothing changes, and nothing runs that is not on the list *)
Asked == [][Chat /\ (\A i \in 1..Len(act'.ans) : ~act'.ans[i]) => fs' = fs /\ (allow = <<>> /\ env = <<>> /\ file.v = <<>> => obs'.runs = <<>>)]_vars
OneEach == [][Chat => Len(obs'.res) = Len(act'.calls) /\ obs'.asked <= Len(act'.calls)]_vars
=============================================================================
