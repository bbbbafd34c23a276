------------------------------ MODULE Tr_Reporting ------------------------------
EXTENDS TraceRun, Reporting
JsonRead(m, o, f) ==
  IF ~JsonHere(m, f) THEN {}
  ELSE LET I == {k \in 1..Len(o.headers.parsed) : o.headers.parsed[k][1] = f} j == JsonOf(m, f) IN
    Clause(I # {}, f \o " wasn't read")
    \cup UNION {LET got == o.headers.parsed[k][2] IN
          Clause(IF ~j.ok THEN got = "None" ELSE IF JWhole(j.v) THEN got = JText(j.v) ELSE got # "None", f \o " was read as " \o got) : k \in I}
JudgeC29(t) == NotesDiff(t.out.notes, ReportingVocab, ReportingNotes(t.in)) \cup JsonRead(t.in, t.out, "report-to") \cup JsonRead(t.in, t.out, "nel")
=============================================================================
