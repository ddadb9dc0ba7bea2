------------------------------ MODULE History ------------------------------
(* Command history of an interactive session and the database it shares with other sessions.

   mem   - what the session shows, oldest first: <<[c, w, n, k, x, d, p, s]>>
           c command, w time, n times executed, k project/context, x/d/p/s outcome of the last run
   db    - the durable rows: command -> row (same fields)
   idx   - position of the navigation cursor, Len(mem)+1 = below the newest entry
   word  - prefix that navigation is restricted to ("" = none)
   minw  - time of the oldest entry the session loaded at its start
   clk   - logical time; cx - context of the working directory                                *)
EXTENDS Str, Integers, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Acts(_), MaxClk, InitDb
VARIABLES mem, db, idx, word, minw, clk, cx, act, obs
vars == <<mem, db, idx, word, minw, clk, cx, act, obs>>
Core == <<mem, db, idx, word, minw, clk, cx>>

NoOut(c, w, n, k) == [c |-> c, w |-> w, n |-> n, k |-> k, x |-> -1, d |-> -1, p |-> "none", s |-> "none"]
CtxOf(d) == IF d \in {"p1", "p1/sub"} THEN "p1" ELSE d

----------------------------------------------------------------------------
(* in-memory list *)
PosIn(m, c) == {i \in 1..Len(m) : m[i].c = c}
Without(m, c) == SelectSeq(m, LAMBDA e : e.c # c)
CountIn(m, c) == IF PosIn(m, c) = {} THEN 0 ELSE m[CHOOSE i \in PosIn(m, c) : TRUE].n
RECURSIVE MemWrite(_, _)
MemWrite(m, b) ==
  IF b = <<>> THEN m
  ELSE LET e == Head(b) IN
       MemWrite(Append(Without(m, e.c), NoOut(e.c, e.w, CountIn(m, e.c) + 1, cx)), Tail(b))

(* durable rows: a new execution counts, moves the row to its time and context, and keeps the outcome
   that was recorded last until the next one is recorded *)
DbWrite1(d, c, w, k) ==
  IF c \in DOMAIN d THEN [d EXCEPT ![c].n = @ + 1, ![c].w = w, ![c].k = k]
  ELSE (c :> NoOut(c, w, 1, k)) @@ d
RECURSIVE DbWrite(_, _, _)
DbWrite(d, b, k) == IF b = <<>> THEN d ELSE DbWrite(DbWrite1(d, Head(b).c, Head(b).w, k), Tail(b), k)

Rows(d) == {d[c] : c \in DOMAIN d}
Sorted(rs) == SetToSortSeq(rs, LAMBDA a, b : a.w < b.w)
LastN(q, k) == IF Len(q) <= k THEN q ELSE SubSeq(q, Len(q) - k + 1, Len(q))
Newest(d, k) == LastN(Sorted(Rows(d)), k)
OlderThan(d, w, k) == LastN(Sorted({r \in Rows(d) : r.w < w}), k)
MinW(m) == IF m = <<>> THEN -1000000 ELSE m[1].w

Out(r, a) == [r EXCEPT !.x = a.x, !.d = a.d, !.p = a.p, !.s = a.s, !.k = cx]

----------------------------------------------------------------------------
(* navigation *)
Match(c) == word = "" \/ IsPrefixOf(word, c)
Above == {i \in 1..Len(mem) : i < idx /\ Match(mem[i].c)}
Below == {i \in 1..Len(mem) : i > idx /\ Match(mem[i].c)}

(* search *)
FirstMatch(v) == LET S == {i \in 1..Len(mem) : IsPrefixOf(v, mem[i].c)} IN
                 IF S = {} THEN <<>> ELSE <<mem[Max(S)].c>>
Accepts(e, q) ==
  /\ q.text = "" \/ ContainsStr(ToLower(e.c), ToLower(q.text))
  /\ q.status = "ok" => e.x = 0
  /\ q.status = "fail" => e.x > 0
  /\ q.dur >= 0 => (IF e.d < 0 THEN 0 ELSE e.d) >= q.dur
  /\ q.scope = "session" => e.s = q.who
  /\ q.scope = "cwd" => e.p = q.who
  /\ q.scope = "project" => e.k = q.who
Take(q, k) == IF k < 0 \/ Len(q) <= k THEN q ELSE SubSeq(q, 1, k)
Query(q) == LET hits == SelectSeq(Reverse(mem), LAMBDA e : Accepts(e, q)) IN
            Take([i \in 1..Len(hits) |-> hits[i].c], q.lim)
Cmds(m) == [i \in 1..Len(m) |-> m[i].c]

----------------------------------------------------------------------------
Show(m, i, r) == [mem |-> m, end |-> (i = Len(m) + 1), r |-> r]
Set(m, d, i, w, mw, t, k, r) ==
  /\ mem' = m /\ db' = d /\ idx' = i /\ word' = w /\ minw' = mw /\ clk' = t /\ cx' = k
  /\ obs' = Show(m, i, r)
Bottom(m) == Len(m) + 1
Later(t, w) == IF w > t THEN w ELSE t

Do(a) ==
  /\ act' = a
  /\ CASE a.op = "write" ->
            LET m == MemWrite(mem, a.b) IN
            Set(m, DbWrite(db, a.b, cx), Bottom(m), word, minw,
                FoldLeft(LAMBDA t, e : Later(t, e.w), clk, a.b), cx, <<>>)
       [] a.op = "outcome" ->
            Set([i \in 1..Len(mem) |-> IF mem[i].c = a.c THEN Out(mem[i], a) ELSE mem[i]],
                IF a.c \in DOMAIN db THEN [db EXCEPT ![a.c] = Out(@, a)] ELSE db,
                idx, word, minw, clk, cx, <<>>)
       [] a.op = "other" ->
            IF a.bg
            THEN LET m == Newest(db, 10000) IN
                 Set(m, DbWrite1(db, a.c, a.w, cx), Bottom(m), "", MinW(m), Later(clk, a.w), cx, <<>>)
            ELSE Set(mem, DbWrite1(db, a.c, a.w, cx), idx, word, minw, Later(clk, a.w), cx, <<>>)
       [] a.op = "restart" ->
            LET m == Newest(db, a.k) IN Set(m, db, Bottom(m), "", MinW(m), clk, cx, <<>>)
       [] a.op = "older" ->
            LET o == SelectSeq(OlderThan(db, minw, a.k), LAMBDA e : PosIn(mem, e.c) = {})
                m == o \o mem IN
            Set(m, db, Bottom(m), word, minw, clk, cx, <<>>)
       [] a.op = "reload" ->
            IF idx # Bottom(mem) THEN Set(mem, db, idx, word, minw, clk, cx, <<>>)
            ELSE LET m == Newest(db, 10000) IN Set(m, db, Bottom(m), word, minw, clk, cx, <<>>)
       [] a.op = "cd" -> Set(mem, db, idx, word, minw, clk, CtxOf(a.d), <<>>)
       [] a.op = "word" -> Set(mem, db, idx, a.v, minw, clk, cx, <<>>)
       [] a.op = "back" ->
            IF Above = {} THEN Set(mem, db, idx, word, minw, clk, cx, <<>>)
            ELSE Set(mem, db, Max(Above), word, minw, clk, cx, <<mem[Max(Above)].c>>)
       [] a.op = "forward" ->
            IF Below # {} THEN Set(mem, db, Min(Below), word, minw, clk, cx, <<mem[Min(Below)].c>>)
            ELSE Set(mem, db, IF idx >= Len(mem) THEN idx ELSE Bottom(mem), word, minw, clk, cx, <<>>)
       [] a.op = "bottom" -> Set(mem, db, Bottom(mem), word, minw, clk, cx, <<>>)
       [] a.op = "first" -> Set(mem, db, idx, word, minw, clk, cx, FirstMatch(a.v))
       [] a.op = "recent" -> Set(mem, db, idx, word, minw, clk, cx, Take(Cmds(Reverse(mem)), a.k))
       [] a.op = "query" -> Set(mem, db, idx, word, minw, clk, cx, Query(a.q))

Init == /\ db = InitDb /\ mem = Newest(InitDb, 10000) /\ idx = Bottom(mem) /\ word = "" /\ minw = MinW(mem)
        /\ clk = 0 /\ cx = "p2" /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == /\ db' = InitDb /\ mem' = Newest(InitDb, 10000) /\ idx' = Bottom(mem') /\ word' = "" /\ minw' = MinW(mem')
            /\ clk' = 0 /\ cx' = "p2" /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The property. *)
Once == \A i, j \in 1..Len(mem) : mem[i].c = mem[j].c => i = j
CursorOk == idx \in 1..(Len(mem) + 1)
(* nothing the session shows is missing from the durable rows, and counts never exceed them *)
Durable == \A i \in 1..Len(mem) : mem[i].c \in DOMAIN db /\ mem[i].n <= db[mem[i].c].n
(* executions are counted: rows are never lost and never count down *)
NoLoss == [][\A c \in DOMAIN db : c \in DOMAIN db' /\ db'[c].n >= db[c].n]_vars
(* only an execution of c changes c's count, by exactly the number of executions *)
Executed(a, c) == CASE a.op = "write" -> Len(SelectSeq(a.b, LAMBDA e : e.c = c))
                    [] a.op = "other" -> IF a.c = c THEN 1 ELSE 0
                    [] OTHER -> 0
Counted == [][\A c \in DOMAIN db' :
                db'[c].n = (IF c \in DOMAIN db THEN db[c].n ELSE 0) + Executed(act', c)]_vars
(* a restart shows exactly the durable rows, newest last *)
RestartShowsAll == [][act'.op = "restart" /\ act'.k >= Cardinality(DOMAIN db)
                       => ToSet(mem') = Rows(db) /\ \A i \in 1..(Len(mem') - 1) : mem'[i].w < mem'[i + 1].w]_vars
(* the newest execution is what the first step back shows *)
WriteIsNewest == [][act'.op = "write" /\ act'.b # <<>> => mem'[Len(mem')].c = act'.b[Len(act'.b)].c]_vars
(* navigation visits matching entries only, strictly upwards / downwards, and skips none *)
NavOk == [][/\ act'.op = "back" /\ obs'.r # <<>> =>
                 idx' < idx /\ Match(mem[idx'].c) /\ \A i \in (idx' + 1)..(idx - 1) : ~Match(mem[i].c)
            /\ act'.op = "forward" /\ obs'.r # <<>> =>
                 idx' > idx /\ Match(mem[idx'].c) /\ \A i \in (idx + 1)..(idx' - 1) : ~Match(mem[i].c)]_vars
ReadOnly == [][act'.op \in {"first", "query", "recent", "back", "forward", "bottom", "word", "cd"}
                => mem' = mem /\ db' = db]_vars
=============================================================================
