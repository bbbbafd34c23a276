------------------------------ MODULE Tr_Conneg ------------------------------
EXTENDS TraceRun, Conneg
Entries(m, o) == {k \in 1..Len(o.headers.parsed) : o.headers.parsed[k][1] \in ConnegFields(m)}
One1(m, o) ==
  NotesDiff(o.notes, ConnegVocab, ConnegNotes(m))
  \cup Clause({o.headers.parsed[k][1] : k \in Entries(m, o)} = {f \in ConnegFields(m) : Present(m.headers, f)}, "not every field was read")
  \cup UNION {LET p == o.headers.parsed[k] IN Clause(p[2] = ConnegParsed(m, p[1]), p[1] \o " was read as " \o p[2]) : k \in Entries(m, o)}
  \cup UNION {LET n == o.notes[k] IN IF n.n # "VARY_COMPLEX" THEN {}
              ELSE Clause(n.v.vary_count = "s" \o ToString(Len(VaryNames(m))), "says it varies in " \o n.v.vary_count \o " ways") : k \in 1..Len(o.notes)}
JudgeC25(t) == One1(t.in, t.out) \cup (IF HasF(t.in, "related") THEN One1(t.in.related, t.out.rel) ELSE {})
=============================================================================
