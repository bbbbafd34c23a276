------------------------------- MODULE Abnf -------------------------------
(***************************************************************************)
(* ABNF as data, and its meaning: Ends(g, s, I) is the set of positions    *)
(* reachable by matching grammar g in s from a position in I.  Literals    *)
(* are case-insensitive, as in RFC 5234.                                   *)
(***************************************************************************)
EXTENDS Text

L(str)   == [t |-> "lit", v |-> Lower(str)]
C(set)   == [t |-> "cls", v |-> set]
S(q)     == [t |-> "seq", v |-> q]
A(q)     == [t |-> "alt", v |-> q]
R(g, lo, hi) == [t |-> "rep", g |-> g, lo |-> lo, hi |-> hi]   \* hi = -1: unbounded
Star(g)  == R(g, 0, 0 - 1)
Plus(g)  == R(g, 1, 0 - 1)
Opt(g)   == R(g, 0, 1)
N(g, n)  == R(g, n, n)

RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), EndsRep(_, _, _, _, _), EndsStar(_, _, _, _)
Ends(g, s, I) ==
  IF I = {} THEN {}
  ELSE CASE g.t = "lit" -> {i + Len(g.v) : i \in {k \in I : k + Len(g.v) - 1 <= Len(s)
                                                   /\ Lower(SubSeq(s, k, k + Len(g.v) - 1)) = g.v}}
         [] g.t = "cls" -> {i + 1 : i \in {k \in I : k <= Len(s) /\ Ch(s, k) \in g.v}}
         [] g.t = "seq" -> EndsSeq(g.v, 1, s, I)
         [] g.t = "alt" -> UNION {Ends(g.v[k], s, I) : k \in 1..Len(g.v)}
         [] g.t = "rep" -> EndsRep(g, s, I, 0, {})
EndsSeq(q, k, s, I) == IF k > Len(q) \/ I = {} THEN I ELSE EndsSeq(q, k + 1, s, Ends(q[k], s, I))
\* n iterations done, at positions I; acc collects the accepting ones
EndsRep(g, s, I, n, acc) ==
  IF n >= g.lo /\ g.hi = 0 - 1 THEN EndsStar(g.g, s, I, acc)
  ELSE LET acc2 == IF n >= g.lo THEN acc \cup I ELSE acc IN
       IF I = {} \/ n = g.hi THEN acc2
       ELSE EndsRep(g, s, Ends(g.g, s, I), n + 1, acc2)
EndsStar(g, s, I, acc) ==
  LET new == I \ acc IN
  IF new = {} THEN acc ELSE EndsStar(g, s, Ends(g, s, new), acc \cup new)

FullMatch(g, s) == (Len(s) + 1) \in Ends(g, s, {1})
\* the library's anchoring: optional surrounding whitespace
MatchWS(g, s) == FullMatch(g, Strip(s))
=============================================================================
