----------------------------- MODULE Tr_Total -----------------------------
(* t.out.steps: the calls made and what came of each; t.out.notes: level, category, subject and
   the locales in which the summary was empty, and in how many of how many the detail was;
   lines: of the longer field section *)
EXTENDS TraceRun, Totality
StepsOf(t) == [k \in 1..Len(t.out.steps) |-> t.out.steps[k][1]]
JudgeC01(t) == LET o == t.out IN
  Clause(IsLife(StepsOf(t)) /\ Ended(StepsOf(t)), "the calls aren't a life")
  \cup UNION {Clause(o.steps[k][2] = "ok", o.steps[k][1] \o ": " \o o.steps[k][2]) : k \in 1..Len(o.steps)}
  \cup UNION {LET n == o.notes[k] IN Clause(n.l \in NoteLevels /\ n.c \in NoteCategories, n.n \o ": level or category")
                                     \cup Clause(SubjectOk(n.s, o.lines), n.n \o ": no such line: " \o n.s)
                                     \cup Clause(n.e = <<>>, n.n \o ": no summary in " \o Join(n.e, ","))
                                     \cup Clause(n.d \in {0, n.of}, n.n \o ": a detail in some locales only") : k \in 1..Len(o.notes)}
=============================================================================
