------------------------------ MODULE Tr_SfFields ------------------------------
EXTENDS TraceRun, SfFields
Stored(t) == t.in.kind = "response" /\ (\E k \in DOMAIN t.out.caching : k \in {"store_shared", "store_private"} /\ t.out.caching[k] = "True")
Subs(o, n) == Cat([k \in 1..Len(o.notes) |-> IF o.notes[k].n = n THEN o.notes[k].sub ELSE <<>>])
JudgeC26(t) ==
  LET m == t.in o == t.out IN
  NotesDiff(o.notes, SfVocab, SfSyntax(m)) \cup NotesDiff(o.notes, SfOwnVocab, SfOwnNotes(m, Stored(t)))
  \cup BagDiff(Subs(o, "PERMISSIONS_POLICY_PRESENT"), PermSubs(m))
  \cup UNION {LET p == o.headers.parsed[k] IN
              IF p[1] \notin SfHere(m) THEN {} ELSE LET w == SfText(m, p[1]) IN Clause(p[2] = w, p[1] \o " was read as " \o p[2] \o ", not " \o w) : k \in 1..Len(o.headers.parsed)}
  \cup Clause(SfHere(m) \subseteq {o.headers.parsed[k][1] : k \in 1..Len(o.headers.parsed)}, "not every field was read")
  \cup UNION {IF o.notes[k].n # "ACCEPT_CH_MISSING_VARY" THEN {}
              ELSE LET w == "s" \o Join(ChMissing(m, SfRead(m, "accept-ch").q), ", ") IN Clause(o.notes[k].v.missing_fields = w, "missing are " \o o.notes[k].v.missing_fields) : k \in 1..Len(o.notes)}
JudgeC30(t) == NotesDiff(t.out.notes, DictVocab, DictNotes(t.in, Stored(t)))
=============================================================================
