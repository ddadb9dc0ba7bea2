------------------------------- MODULE Editor -------------------------------
(* The line editor.  Texts are sequences of one-character strings.

   line, cur  what is typed and the cursor in it (0..Len(line))
   pend       earlier lines of an unfinished command, each with its newline
   hist       commands, oldest first; idx the navigation position (Len(hist)+1 = below the newest)
   word       what navigation is restricted to (<<>> = nothing)
   pair       whether brackets and quotes are typed in pairs
   solo       whether the last key was Ctrl-C
   Names      what words can be completed to; Abbr abbreviations: sequence of <<word, expansion>>          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Acts(_), Inits, Names, Abbr, Wide, Zero
VARIABLES line, cur, pend, hist, idx, word, pair, act, obs
vars == <<line, cur, pend, hist, idx, word, pair, act, obs>>
Core == <<line, cur, pend, hist, idx, word, pair>>

Space == {" ", "\n", "\t"}
Delim == Space \cup {"|", "&", ";", "(", ")"}
Pre(q, n) == SubSeq(q, 1, n)
Post(q, n) == SubSeq(q, n + 1, Len(q))
Starts(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* where a run of characters satisfying P that ends at position i (0-based) begins; ends, for one that begins there *)
Back1(q, i, S, in) == CHOOSE j \in 0..i : /\ \A k \in (j + 1)..i : (q[k] \in S) = in
                                          /\ j > 0 => (q[j] \in S) # in
Fwd1(q, i, S, in) == CHOOSE j \in i..Len(q) : /\ \A k \in (i + 1)..j : (q[k] \in S) = in
                                             /\ j < Len(q) => (q[j + 1] \in S) # in
WordLeft(q, i) == Back1(q, Back1(q, i, Space, TRUE), Space, FALSE)
WordRight(q, i) == Fwd1(q, Fwd1(q, i, Space, FALSE), Space, TRUE)

(* a command that is not finished: an open quote or bracket, or an operator or backslash at its end *)
Bk(st) == IF st.b = <<>> THEN "" ELSE Last(st.b)
Scan(st, c) ==
  IF st.esc THEN [st EXCEPT !.esc = FALSE]
  ELSE IF st.q # "" THEN (IF c = "\\" /\ st.q = "\"" THEN [st EXCEPT !.esc = TRUE]
                          ELSE IF c = st.q THEN [st EXCEPT !.q = ""] ELSE st)
  ELSE CASE c = "\\" -> [st EXCEPT !.esc = TRUE]
         [] c \in {"'", "\""} -> [st EXCEPT !.q = c]
         [] c \in {"(", "[", "{"} -> [st EXCEPT !.b = Append(@, c)]
         [] (c = ")" /\ Bk(st) = "(") \/ (c = "]" /\ Bk(st) = "[") \/ (c = "}" /\ Bk(st) = "{") ->
               [st EXCEPT !.b = Front(@)]
         [] OTHER -> st
Trim(q) == SubSeq(q, 1, Back1(q, Len(q), Space, TRUE))
Unfinished(q) ==
  LET st == FoldLeft(Scan, [esc |-> FALSE, q |-> "", b |-> <<>>], q)
      t == Trim(q) n == Len(t) IN
  \/ st.q # "" \/ st.b # <<>> \/ st.esc
  \/ n >= 1 /\ t[n] = "|"
  \/ n >= 2 /\ t[n] = "&" /\ t[n - 1] = "&"

(* the abbreviation before the cursor *)
AbbrOf(q, i) == LET j == Back1(q, i, Delim, FALSE) w == SubSeq(q, j + 1, i)
                    S == {k \in 1..Len(Abbr) : Abbr[k][1] = w} IN
                IF w = <<>> \/ S = {} THEN <<>> ELSE <<j, Abbr[CHOOSE k \in S : TRUE][2]>>
Expand(q, i) == LET x == AbbrOf(q, i) IN
  IF x = <<>> THEN <<q, i>> ELSE <<Pre(q, x[1]) \o x[2] \o Post(q, i), x[1] + Len(x[2])>>

(* what a ghost may add: the rest of a command run before, or of the name that a word of the line begins *)
Completed(q, i, S) ==
  LET a == Back1(q, i, S, FALSE) b == Fwd1(q, i, S, FALSE) w == SubSeq(q, a + 1, b) IN
  IF w = <<>> THEN {} ELSE {Pre(q, a) \o n \o Post(q, b) : n \in {m \in Names : Starts(w, m)}}
Ghosts(q) == {h \in ToSet(hist) : Starts(q, h) /\ h # q}
             \cup UNION {Completed(q, i, Delim) \cup Completed(q, i, Delim \cup {"'", "\""}) : i \in 0..Len(q)}

(* where the cursor is drawn, on rows of 9 columns after a mark of 2 *)
Cols == 9
Width(c) == IF c \in Wide THEN 2 ELSE IF c \in Zero THEN 0 ELSE 1
Step(p, c) == IF c = "\n" THEN <<0, p[2] + 1>>
              ELSE IF p[1] + Width(c) > Cols THEN <<Width(c), p[2] + 1>> ELSE <<p[1] + Width(c), p[2]>>
Pos(q, i) == FoldLeft(Step, <<2, 0>>, Pre(q, i))
Rows(q) == Pos(q, Len(q))[2] + 1

Without(m, c) == SelectSeq(m, LAMBDA e : e # c)
Write(m, c) == Append(Without(m, c), c)
Bottom(m) == Len(m) + 1
Open == <<"(", "[", "{", "'", "\"">>
Shut == <<")", "]", "}", "'", "\"">>
IsPair(p, n) == \E k \in 1..5 : Open[k] = p /\ Shut[k] = n
ShutOf(c) == Shut[CHOOSE k \in 1..5 : Open[k] = c]

----------------------------------------------------------------------------
Show(q, i, p, h, r) == [line |-> q, drawn |-> q, cur |-> i, pend |-> p, ran |-> r, newest |-> IF h = <<>> THEN <<>> ELSE Last(h),
                        n |-> Len(h), pos |-> Pos(q, i), rows |-> Rows(q)]
All(q, i, p, h, x, w, r) ==
  /\ line' = q /\ cur' = i /\ pend' = p /\ hist' = h /\ idx' = x /\ word' = w /\ UNCHANGED pair
  /\ obs' = Show(q, i, p, h, r)
Set(q, i) == All(q, i, pend, hist, idx, word, <<>>)
Same == Set(line, cur)
Ins(t) == Set(Pre(line, cur) \o t \o Post(line, cur), cur + Len(t))
Cut(i, j, c) == Set(Pre(line, i) \o Post(line, j), c)

Next1 == IF cur < Len(line) THEN line[cur + 1] ELSE ""
TypeChar(c) ==
  IF c = " " THEN LET x == Expand(line, cur) IN
                  Set(Pre(x[1], x[2]) \o <<" ">> \o Post(x[1], x[2]), x[2] + 1)
  ELSE IF pair /\ c \in ToSet(Open) THEN Set(Pre(line, cur) \o <<c, ShutOf(c)>> \o Post(line, cur), cur + 1)
  ELSE IF pair /\ c \in {")", "]", "}"} /\ Next1 = c THEN Set(line, cur + 1)
  ELSE Ins(<<c>>)

(* an accepted suggestion may or may not be remembered as a command; taken partly it never is *)
Accept ==
  \/ \E g \in Ghosts(line) :
       \/ All(g, Len(g), pend, hist, idx, word, <<>>)
       \/ Starts(line, g) /\ g # line /\ LET h == Write(hist, g) IN All(g, Len(g), pend, h, Bottom(h), word, <<>>)
AcceptPart == \E g \in Ghosts(line) : Starts(line, g) /\
                \E k \in (Len(line) + 1)..Len(g) : All(Pre(g, k), k, pend, hist, idx, word, <<>>)
AtEnd == cur = Len(line)

NavWord == IF line = <<>> THEN <<>> ELSE IF idx = Bottom(hist) THEN line ELSE word
Above(w) == {i \in 1..Len(hist) : i < idx /\ Starts(w, hist[i])}
Below(w) == {i \in 1..Len(hist) : i > idx /\ Starts(w, hist[i])}
Up == LET w == NavWord IN
      IF Above(w) = {} THEN All(line, cur, pend, hist, idx, w, <<>>)
      ELSE LET i == Max(Above(w)) IN All(hist[i], Len(hist[i]), pend, hist, i, w, <<>>)
Down == LET w == IF line = <<>> THEN <<>> ELSE word IN
        IF idx = Bottom(hist) THEN All(line, cur, pend, hist, idx, w, <<>>)
        ELSE IF Below(w) # {} THEN LET i == Min(Below(w)) IN All(hist[i], Len(hist[i]), pend, hist, i, w, <<>>)
        ELSE All(w, Len(w), pend, hist, Bottom(hist), w, <<>>)

Enter ==
  LET comb == pend \o line IN
  IF Unfinished(comb) THEN All(<<>>, 0, Append(comb, "\n"), hist, idx, word, <<>>)
  ELSE LET x == Expand(comb, IF pend = <<>> THEN cur ELSE Len(comb))
           h == IF x[1] = <<>> THEN hist ELSE Write(hist, x[1]) IN
       All(<<>>, 0, <<>>, h, Bottom(h), <<>>, x[1])

Norm(t) == LET keep == SelectSeq([i \in 1..Len(t) |-> <<t[i], i>>],
                                 LAMBDA e : ~(e[1] = "\n" /\ e[2] > 1 /\ t[e[2] - 1] = "\r")) IN
           [i \in 1..Len(keep) |-> IF keep[i][1] = "\r" THEN "\n" ELSE keep[i][1]]

Sudo == <<"s", "u", "d", "o", " ">>
Do(a) ==
  /\ act' = a
  /\ CASE a.op = "type" -> TypeChar(a.c)
       [] a.op = "paste" -> Ins(Norm(a.t))
       [] a.op = "bs" -> IF cur = 0 THEN Same
                         ELSE IF pair /\ cur < Len(line) /\ IsPair(line[cur], line[cur + 1]) THEN Cut(cur - 1, cur + 1, cur - 1)
                         ELSE Cut(cur - 1, cur, cur - 1)
       [] a.op = "^w" -> LET i == WordLeft(line, cur) IN Cut(i, cur, i)
       [] a.op = "^k" -> Cut(cur, Len(line), cur)
       [] a.op = "^u" -> Cut(0, cur, 0)
       [] a.op = "left" -> Set(line, IF cur = 0 THEN 0 ELSE cur - 1)
       [] a.op = "^left" -> Set(line, WordLeft(line, cur))
       [] a.op = "right" -> IF AtEnd THEN Same \/ Accept ELSE Set(line, cur + 1)
       [] a.op = "^right" -> IF AtEnd THEN Same \/ AcceptPart ELSE Set(line, WordRight(line, cur))
       [] a.op = "^f" -> Same \/ (AtEnd /\ Accept)
       [] a.op = "^a" -> Set(line, 0)
       [] a.op = "^e" -> Set(line, Len(line)) \/ Accept
       [] a.op = "up" -> Up
       [] a.op = "down" -> Down
       [] a.op = "enter" -> Enter
       [] a.op = "^c" -> All(<<>>, 0, <<>>, hist, Bottom(hist), <<>>, <<>>)
       [] a.op = "esc2" -> Same \/ IF Starts(Sudo, line) THEN Set(Post(line, 5), Len(line) - 5)
                                   ELSE Set(Sudo \o line, Len(line) + 5)

Begin(p, h) == line = <<>> /\ cur = 0 /\ pend = <<>> /\ hist = h /\ idx = Bottom(h) /\ word = <<>> /\ pair = p
Init == (\E s \in Inits : Begin(s[1], s[2])) /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == \E s \in Inits : /\ line' = <<>> /\ cur' = 0 /\ pend' = <<>> /\ hist' = s[2] /\ idx' = Bottom(s[2]) /\ word' = <<>>
                             /\ pair' = s[1] /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
TypeOk == cur \in 0..Len(line) /\ idx \in 1..Bottom(hist) /\ \A i, j \in 1..Len(hist) : hist[i] = hist[j] => i = j
(* typing and pasting never lose a character; deletions delete from one place only and on the cursor's side *)
Keeps == [][act'.op \in {"type", "paste"} /\ act'.op # "init" =>
             \A c \in ToSet(line) : ("" \o c) # "" => Cardinality({k \in 1..Len(line') : line'[k] = c}) >=
                                      IF \E k \in 1..Len(Abbr) : c \in ToSet(Abbr[k][1]) THEN 0
                                      ELSE Cardinality({k \in 1..Len(line) : line[k] = c})]_vars
Deletes == [][/\ act'.op = "^k" => line' = Pre(line, cur)
              /\ act'.op = "^u" => line' = Post(line, cur)
              /\ act'.op \in {"bs", "^w"} => Starts(line', line) \/ \E n \in 0..Len(line') : line' = Pre(line, n) \o Post(line, Len(line) - Len(line') + n)]_vars
(* moving changes nothing but the cursor *)
Moves == [][act'.op \in {"left", "^left", "^a"} => line' = line /\ hist' = hist /\ pend' = pend]_vars
(* only Enter runs something, and what it runs is what was shown, all lines of it *)
Runs == [][/\ obs'.ran # <<>> => act'.op = "enter" /\ line' = <<>> /\ pend' = <<>>
           /\ act'.op = "enter" /\ obs'.ran # <<>> /\ Expand(pend \o line, Len(pend) + cur) = <<pend \o line, Len(pend) + cur>>
                /\ AbbrOf(pend \o line, Len(pend \o line)) = <<>> => obs'.ran = pend \o line
           /\ act'.op = "enter" /\ obs'.ran = <<>> => line \o pend = <<>> \/ pend' = pend \o line \o <<"\n">>]_vars
=============================================================================
