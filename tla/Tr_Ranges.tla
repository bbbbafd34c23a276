------------------------------ MODULE Tr_Ranges ------------------------------
EXTENDS TraceRun, Ranges
Entries(m, o) == {k \in 1..Len(o.headers.parsed) : o.headers.parsed[k][1] \in RangesFields(m)}
One1(m, o) ==
  NotesDiff(o.notes, RangesVocab, RangesNotes(m))
  \cup Clause({o.headers.parsed[k][1] : k \in Entries(m, o)} = {f \in RangesFields(m) : Present(m.headers, f)}, "not every field was read")
  \cup UNION {LET p == o.headers.parsed[k] IN Clause(p[2] = RangesParsed(m, p[1]), p[1] \o " was read as " \o p[2]) : k \in Entries(m, o)}
JudgeC23(t) == One1(t.in, t.out) \cup (IF HasF(t.in, "related") THEN One1(t.in.related, t.out.rel) ELSE {})
=============================================================================
