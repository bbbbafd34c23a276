------------------------------- MODULE Tr_Cli -------------------------------
(* t.in: m, argv; t.out: what the command was given and printed (wire, lines, status), and what the
   library has on the message it was told of (told, has), in the locale of the arguments.
   cats: the categories' names, by language. *)
EXTENDS TraceRun, Cli
CatsIn(t) == LET l == Lang(Settings(t.in.argv, Settings0).loc) IN [x \in DOMAIN t.out.cats |-> t.out.cats[x][l]]
JudgeC31(t) ==
  LET s == Settings(t.in.argv, Settings0) IN
  Clause(t.out.settings = <<s.mode, s.loc, ToString(s.now)>>, "the library wasn't asked the same")
  \cup Clause(t.out.wire = Wire(t.in.m), "not the message's wire form")
  \cup Clause(t.out.told = Told(t.in.m), "the library wasn't told the same")
  \cup Clause(t.out.status = "0", "exit status " \o t.out.status)
  \cup ReportBad(t.out.lines, CatsIn(t), t.out.has)
=============================================================================
