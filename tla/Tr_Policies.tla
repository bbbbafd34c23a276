------------------------------ MODULE Tr_Policies ------------------------------
EXTENDS TraceRun, Policies
SubsOf(o, n, s) == Cat([k \in 1..Len(o.notes) |-> IF o.notes[k].n \in n /\ o.notes[k].s = s THEN o.notes[k].sub ELSE <<>>])
ReadAs(o, f, w) == UNION {IF o.headers.parsed[k][1] # f THEN {} ELSE Clause(o.headers.parsed[k][2] = w, f \o " was read as " \o o.headers.parsed[k][2] \o ", not " \o w) : k \in 1..Len(o.headers.parsed)}
                   \cup Clause(\E k \in 1..Len(o.headers.parsed) : o.headers.parsed[k][1] = f, f \o " wasn't read")
JudgeC20(t) == LET m == t.in o == t.out IN
  NotesDiff(o.notes, StsVocab, StsNotes(m)) \cup BagDiff(SubsOf(o, StsVocab, "field-" \o StsName), StsSubs(m))
  \cup (IF StsHere(m) THEN ReadAs(o, StsName, StsText(OneOf(m.headers, StsName))) ELSE {})
JudgeC21(t) == LET m == t.in o == t.out IN
  NotesDiff(o.notes, CspVocab, CspNotes(m))
  \cup UNION {BagDiff(SubsOf(o, CspVocab, "field-" \o f), CspSubs(m, f)) : f \in CspFields}
  \cup UNION {IF m.kind = "response" /\ Present(m.headers, f) THEN ReadAs(o, f, CspText(m, f)) ELSE {} : f \in CspFields}
JudgeC22(t) == LET m == t.in o == t.out IN
  NotesDiff(o.notes, TokenVocab, TokenNotes(m))
  \cup UNION {IF m.kind = "response" /\ Present(m.headers, f) THEN ReadAs(o, f, TokenText(m, f)) ELSE {} : f \in TokenFields}
=============================================================================
