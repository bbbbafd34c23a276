------------------------------ MODULE Tr_Html ------------------------------
(* t.out.shown: the rendering of each note with message data, in one locale:
   n/loc/where, segs: for each part of the HTML between two "<" that differs from the part of
   the same note rendered with harmless data, <<index, part, part with harmless data>>;
   count: of the parts of both; plain: the data shown as text; safe: data composed as Markdown;
   st, sv, su: the summary's template, the values of its variables and what it came to. *)
EXTENDS TraceRun, Html
TextOf(g) == IF g[1] = 1 THEN g[2] ELSE AfterTag(g[2])
SegBad(g) == LET first == g[1] = 1
                 ta == IF first THEN "" ELSE TagPart(g[2])
                 tb == IF first THEN "" ELSE TagPart(g[3])
                 xa == IF first THEN g[2] ELSE AfterTag(g[2])
                 xb == IF first THEN g[3] ELSE AfterTag(g[3])
             IN Clause(ta = tb, "a tag changes with the data: <" \o ta)
                \cup Clause(RefsOk(xa, 1), "unescaped &")
                \cup Clause(Neutral(Decode(xa)) = Neutral(Decode(xb)), "text changes with the data: " \o xa)
NoteBad(r) ==
  Clause(r.count[1] = r.count[2], "tags appear or vanish with the data")
  \cup (IF r.count[1] # r.count[2] THEN {} ELSE UNION {SegBad(r.segs[k]) : k \in 1..Len(r.segs)})
  \cup UNION {Clause(\E j \in 1..Len(r.segs) : Contains(Squash(Decode(TextOf(r.segs[j]))), Squash(r.plain[k])), "not shown: " \o r.plain[k]) : k \in 1..Len(r.plain)}
  \cup UNION {Clause(SafeOk(r.safe[k]), "data outside of code: " \o r.safe[k]) : k \in 1..Len(r.safe)}
  \cup Clause(r.su = Interp(r.st, r.sv), "summary isn't its template with the data: " \o r.su)
  \cup Clause(r.again, "rendering depends on what was rendered before")
JudgeC16(t) == UNION {{t.out.shown[k].n \o "[" \o t.out.shown[k].loc \o "]: " \o b : b \in NoteBad(t.out.shown[k])} : k \in 1..Len(t.out.shown)}
=============================================================================
