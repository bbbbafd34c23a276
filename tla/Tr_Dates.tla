----------------------------- MODULE Tr_Dates -----------------------------
EXTENDS TraceRun, DateRules
ParsedOf(t, name) == LET p == t.out.headers.parsed hit == {k \in 1..Len(p) : p[k][1] = name} IN
                     IF hit = {} THEN "absent" ELSE p[CHOOSE k \in hit : TRUE][2]
StartOf(t) == IF HasF(t.in, "start") THEN t.in.start ELSE 0
Says(t, cls, text) == Clause(\A k \in 1..Len(t.out.notes) : t.out.notes[k].n = cls => t.out.notes[k].sm = text,
                             "text:" \o cls \o " is not: " \o text)
ResponseOf(t) == t.in.kind = "response"
JudgeDates(t) ==
  LET ls == t.in.headers st == StartOf(t)
      lm == FirstDate(ls, "last-modified") base == LmBase(ls, st) IN
  NotesDiff(t.out.notes, DateFieldVocab, DateFieldNotes(ls, t.in.kind))
  \cup UNION {IF Present(ls, f)
              THEN Clause(ParsedOf(t, f) = DateParsed(ls, f), "parsed " \o f \o ": " \o ParsedOf(t, f) \o " not " \o DateParsed(ls, f))
              ELSE {} : f \in DateFieldsOf(t.in.kind)}
  \cup (IF ResponseOf(t) THEN
          NotesDiff(t.out.notes, LmVocab \cup SunsetVocab, LmNotes(ls, st) \o SunsetNotes(ls, st))
          \cup (LET a == LmAge(ls, st) IN
                IF Usable(lm) /\ base.ok /\ a < Cap
                THEN Says(t, "LM_PRESENT", "The resource last changed " \o (IF a = 0 THEN "in 0 seconds." ELSE Duration(a) \o " ago.")) ELSE {})
        ELSE {})
JudgeClock(t) ==
  LET ls == t.in.headers st == StartOf(t) v == ClockVerdict(ls, st) IN
  IF ~ResponseOf(t) THEN NotesDiff(t.out.notes, ClockVocab, <<>>)
  ELSE NotesDiff(t.out.notes, ClockVocab, v.n)
       \cup (IF AgeValue(ls) < Cap /\ v.skew # Cap /\ v.skew # 0 - Cap THEN Says(t, "DATE_INCORRECT", "The server's clock is " \o SkewText(v.skew) \o ".") ELSE {})
=============================================================================
