------------------------------ MODULE Tr_Cors ------------------------------
EXTENDS TraceRun, Cors
JudgeC15(t) ==
  NotesDiff(t.out.notes, CorsVocab, CorsNotes(t.in))
  \cup UNION {LET n == t.out.notes[k] IN
     (IF n.n \in {"CORS_ORIGIN_MATCH", "CORS_ORIGIN_MISMATCH"} /\ Asked(t.in) /\ OriginValid(t.in.related.headers)
      THEN Clause(n.v.origin = AskedText(t.in), n.n \o " says the origin is " \o n.v.origin) ELSE {})
     \cup (IF n.n = "CORS_ORIGIN_MISMATCH" THEN Clause(n.v.acao_value = "s" \o Allowed(t.in.headers), "says it allows " \o n.v.acao_value) ELSE {})
     \cup (IF n.n = "CORS_PREFLIGHT_ONLY" THEN Clause(n.v.headers = "s" \o Join(PreflightOnly(t.in.headers), ", "), "CORS_PREFLIGHT_ONLY lists " \o n.v.headers) ELSE {})
     : k \in 1..Len(t.out.notes)}
  \cup (IF HasF(t.out, "rel") THEN NotesDiff(t.out.rel.notes, CorsVocab, CorsNotes(t.in.related)) ELSE {})
=============================================================================
