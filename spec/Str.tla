---- MODULE Str ----
(* Strings as TLC sees them: Len, SubSeq and \o work on string values. *)
EXTENDS Naturals, Sequences, FiniteSets
IsPrefixOf(w, s) == Len(w) <= Len(s) /\ SubSeq(s, 1, Len(w)) = w
ContainsStr(s, w) == \E i \in 0..(Len(s) - Len(w)) : Len(w) <= Len(s) /\ SubSeq(s, i + 1, i + Len(w)) = w
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerCh(ch) == IF \E i \in 1..26 : SubSeq(Upper, i, i) = ch
               THEN LET i == CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = ch IN SubSeq(Lower, i, i)
               ELSE ch
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowerCh(SubSeq(s, i, i)) \o LowerFrom(s, i + 1)
ToLower(s) == LowerFrom(s, 1)
====
