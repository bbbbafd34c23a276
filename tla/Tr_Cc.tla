------------------------------- MODULE Tr_Cc -------------------------------
EXTENDS TraceRun, CdnCacheControl
ParsedOf(t, name) == LET p == t.out.headers.parsed hit == {k \in 1..Len(p) : p[k][1] = name} IN
                     IF hit = {} THEN "absent" ELSE p[CHOOSE k \in hit : TRUE][2]
CcLines(t) == t.in.headers
JudgeCc(t) ==
  LET ls == t.in.headers kind == t.in.kind IN
  NotesDiff(t.out.notes, CcVocab, CcNotes(ls, kind))
  \cup NotesDiff(SelectSeq(t.out.notes, LAMBDA n : n.k = n.n \o "(Cache-Control)"), {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED"},
                 SyntaxKeys(ls, "cache-control", CcElement, "Cache-Control"))
  \cup (IF Present(ls, "cache-control")
        THEN Clause(ParsedOf(t, "cache-control") = CcParsed(ls), "parsed: " \o ParsedOf(t, "cache-control") \o " not " \o CcParsed(ls)) ELSE {})
  \cup NotesDiff(t.out.notes, CdnVocab, CdnNotes(ls, kind))
  \cup (IF Present(ls, "cdn-cache-control") /\ kind = "response"
        THEN LET w == FlatSf(SfField(ls, "cdn-cache-control", "dictionary"), "dictionary") IN
             Clause(ParsedOf(t, "cdn-cache-control") = w, "parsed: " \o ParsedOf(t, "cdn-cache-control") \o " not " \o w) ELSE {})
=============================================================================
