------------------------------ MODULE Tr_Syntax ------------------------------
EXTENDS TraceRun, Grammars
Plain(k) == IF StartsWith(k, "BAD_SYNTAX_DETAILED(") THEN "BAD_SYNTAX(" \o From(k, 21) ELSE k
RECURSIVE Spaces(_)
Spaces(k) == IF k <= 0 THEN "" ELSE " " \o Spaces(k - 1)
\* the complaint about value v at its p-th character
Complaint(v, p) ==
  LET a == IF p - 1 < 20 THEN 1 ELSE p - 20 b == IF p + 19 > Len(v) THEN Len(v) ELSE p + 19 IN
  "sThe invalid character '" \o Ch(v, p) \o "' was found at position " \o ToString(p) \o ":\n\n    " \o SubSeq(v, a, b) \o "\n    " \o Spaces(p - a) \o "^"
JudgeC07(t) ==
  LET m == t.in
      notes == SelectSeq(t.out.notes, LAMBDA x : x.n \in {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED"}) IN
  BagDiff([k \in 1..Len(notes) |-> NoteKey(Plain(notes[k].k), notes[k].s)], SyntaxNotes(m))
  \cup UNION {LET x == notes[k] n == Lower(SubSeq(x.k, 21, Len(x.k) - 1)) IN
       IF x.n = "BAD_SYNTAX" \/ ~IsList(n) THEN {}
       \* where a complaint points, the grammar could get to, and not get further with that character
       ELSE Clause(\E q \in {Judged(n, m.headers)[j] : j \in 1..Len(Judged(n, m.headers))} :
                     /\ Off(q[1]) = x.s /\ x.v.value = "s" \o q[2]
                     /\ \E p \in {1} \cup Ends(GrammarOf(n), q[2], {1}) : p <= Len(q[2]) /\ x.v.problem = Complaint(q[2], p),
                   "the complaint about " \o n \o " is wrong: " \o x.v.problem)
       : k \in 1..Len(notes)}
=============================================================================
