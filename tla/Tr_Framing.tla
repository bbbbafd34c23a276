------------------------------ MODULE Tr_Framing ------------------------------
EXTENDS TraceRun, Framing
Entries(o) == {k \in 1..Len(o.headers.parsed) : o.headers.parsed[k][1] \in FramingFields}
One1(m, o) ==
  NotesDiff(o.notes, FramingVocab, FramingNotes(m))
  \cup Clause({o.headers.parsed[k][1] : k \in Entries(o)} = {f \in FramingFields : Present(m.headers, f)}, "not every framing field was read")
  \cup UNION {LET p == o.headers.parsed[k] IN Clause(p[2] = FramingParsed(m, p[1]), p[1] \o " was read as " \o p[2]) : k \in Entries(o)}
JudgeC24(t) == One1(t.in, t.out) \cup (IF HasF(t.in, "related") THEN One1(t.in.related, t.out.rel) ELSE {})
=============================================================================
