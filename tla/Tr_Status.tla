----------------------------- MODULE Tr_Status -----------------------------
EXTENDS TraceRun, Status
Says(t) == LET w == Saying(t.in) IN
  UNION {LET n == t.out.notes[k] IN
         IF n.n \notin StatusVocab THEN {}
         ELSE UNION {Clause(~HasF(n.v, f) \/ n.v[f] = w[f], n.n \o " says " \o f \o "=" \o n.v[f] \o " not " \o w[f]) : f \in DOMAIN n.v \cap DOMAIN w}
         : k \in 1..Len(t.out.notes)}
JudgeC14(t) == NotesDiff(t.out.notes, StatusVocab, StatusNotes(t.in)) \cup Says(t)
               \cup (IF HasF(t.out, "rel") THEN {"on the request: " \o k : k \in SeqSet(Owned(t.out.rel.notes, StatusVocab))} ELSE {})
=============================================================================
