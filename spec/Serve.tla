------------------------------- MODULE Serve -------------------------------
(* serve: a folder over HTTP.  A path is a sequence of names, counted from a place above the served folder.

   w    what lies on the disk: nodes [p, k, c, to]; k is "file" (contents c), "dir", "fifo" or "link" (to the path to)
   cfg  index, cors: whether index.html stands for its folder, and whether answers carry the CORS header
        names, type: all names in their order, and the type of a file by its name *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Acts(_), Inits, Cfgs, Root, Index, Max0
VARIABLES w, cfg, act, obs
vars == <<w, cfg, act, obs>>
Core == <<w, cfg>>

Has(d, p) == \E n \in d : n.p = p
At(d, p) == CHOOSE n \in d : n.p = p
Dir(d, p) == p = <<>> \/ (Has(d, p) /\ At(d, p).k = "dir")
Under(r, p) == Len(r) <= Len(p) /\ SubSeq(p, 1, Len(r)) = r
Fuel == 8

(* where a path leads, links followed: <<"ok", path>>, or nowhere, or above everything modelled *)
RECURSIVE Walk(_, _, _, _)
Walk(d, p, rest, fuel) ==
  IF rest = <<>> THEN <<"ok", p>>
  ELSE IF ~Dir(d, p) THEN <<"none", <<>>>>
  ELSE LET h == Head(rest) q == Append(p, h) IN
       IF h = "." THEN Walk(d, p, Tail(rest), fuel)
       ELSE IF h = ".." THEN IF p = <<>> THEN <<"out", <<>>>> ELSE Walk(d, Front(p), Tail(rest), fuel)
       ELSE IF ~Has(d, q) THEN <<"none", <<>>>>
       ELSE IF At(d, q).k = "link" THEN IF fuel = 0 THEN <<"none", <<>>>>
                                        ELSE Walk(d, <<>>, At(d, q).to \o Tail(rest), fuel - 1)
       ELSE Walk(d, q, Tail(rest), fuel)
Real(d, p) == Walk(d, <<>>, p, Fuel)

Kind(d, r) == IF r[1] # "ok" THEN "none" ELSE IF Dir(d, r[2]) THEN "dir" ELSE At(d, r[2]).k
Inside(r) == r[1] = "ok" /\ Under(Root, r[2])

Listing(d, p) ==
  LET In == SelectSeq(cfg.names, LAMBDA n : Has(d, Append(p, n)))
      E(n) == [n |-> n, dir |-> Kind(d, Real(d, Append(p, n))) = "dir"]
      All == [i \in 1..Len(In) |-> E(In[i])] IN
  SelectSeq(All, LAMBDA e : e.dir) \o SelectSeq(All, LAMBDA e : ~e.dir)

No == [st |-> "no", c |-> 0, type |-> "", list |-> <<>>, cors |-> FALSE]
(* the type goes by the name asked for or by that of the file a link leads to *)
File(p, n) == {[st |-> "file", c |-> At(w, p).c, type |-> cfg.type[x], list |-> <<>>, cors |-> cfg.cors] :
                 x \in {Last(p)} \cup (DOMAIN cfg.type \cap {n})}
List(p) == [st |-> "list", c |-> 0, type |-> "html", list |-> Listing(w, p), cors |-> cfg.cors]
Get(u, slash) ==
  LET r == Real(w, Root \o u \o (IF slash THEN <<".">> ELSE <<>>))
      i == Real(w, r[2] \o <<Index>>) IN
  IF ~Inside(r) THEN {No}
  ELSE IF Kind(w, r) = "file" THEN File(r[2], Last(u))
  ELSE IF Kind(w, r) # "dir" THEN {No}
  ELSE IF cfg.index /\ Inside(i) /\ Kind(w, i) = "file" THEN File(i[2], Index)
  ELSE {List(r[2])}

Node(p, k, c, to) == [p |-> p, k |-> k, c |-> c, to |-> to]
Free(p) == Dir(w, Front(p)) /\ ~Has(w, p)
Same == UNCHANGED <<w, cfg>>
Done == obs' = No
Do(a) ==
  /\ act' = a
  /\ CASE a.op = "begin" -> w' = ToSet(a.w) /\ cfg' = a.cfg /\ Done
       [] a.op = "get"   -> Same /\ obs' \in Get(a.u, a.slash)
       [] a.op = "head"  -> Same /\ obs' \in {[o EXCEPT !.c = 0, !.list = <<>>] : o \in Get(a.u, a.slash)}
       (* other methods, other addresses of the machine, and a second server on the port: refused, and nothing changes *)
       [] a.op \in {"other", "elsewhere", "again"} -> Same /\ Done
       [] a.op = "put"   -> /\ w' = IF Free(a.p) \/ (Has(w, a.p) /\ At(w, a.p).k = "file")
                                    THEN {n \in w : n.p # a.p} \cup {Node(a.p, "file", a.c, <<>>)} ELSE w
                            /\ UNCHANGED cfg /\ Done
       [] a.op = "make"  -> /\ w' = IF Free(a.p) THEN w \cup {Node(a.p, a.k, 0, a.to)} ELSE w
                            /\ UNCHANGED cfg /\ Done
       [] a.op = "del"   -> /\ w' = IF \E n \in w : n.p # a.p /\ Under(a.p, n.p) THEN w ELSE {n \in w : n.p # a.p}
                            /\ UNCHANGED cfg /\ Done
       [] a.op = "stop"  -> Same /\ obs' = [No EXCEPT !.st = "stopped"]

Init == w \in Inits /\ cfg \in Cfgs /\ act = [op |-> "init"] /\ obs = <<>>
ResetAct == w' \in Inits /\ cfg' \in Cfgs /\ act' = [op |-> "init"] /\ obs' = <<>>
Next == \E a \in Acts(Core) : Do(a)
Spec == Init /\ [][Next]_vars
Few == Cardinality(w) <= Max0
----------------------------------------------------------------------------
Inner == {n \in w : Under(Root, n.p) /\ n.k = "file"}
Outer == {n.c : n \in {m \in w : ~Under(Root, m.p) /\ m.k = "file"}}
Asked == {"get", "head"}
(* nothing of a file outside is ever in an answer *)
Contained == act.op \in Asked => obs.c \notin Outer \ {0}
(* every file of the folder can be had, as it is now, under its own path *)
Reachable == \A n \in Inner : Get(SubSeq(n.p, Len(Root) + 1, Len(n.p)), FALSE) = File(n.p, Last(n.p))
(* a listing names every entry once, and what it leads to is what is there *)
Complete == \A n \in w : n.k = "dir" /\ Under(Root, n.p) =>
              LET L == Listing(w, n.p) IN
              /\ {L[i].n : i \in DOMAIN L} = {Last(m.p) : m \in {x \in w : Len(x.p) = Len(n.p) + 1 /\ Under(n.p, x.p)}}
              /\ \A i, j \in DOMAIN L : i # j => L[i].n # L[j].n
(* asking changes nothing *)
ReadOnly == [][act'.op \in Asked \cup {"other"} => w' = w]_vars
=============================================================================
