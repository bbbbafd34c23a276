----------------------------- MODULE Tr_Content -----------------------------
EXTENDS TraceRun, Content
ParsedOf(t, name) == LET q == SelectSeq(t.out.headers.parsed, LAMBDA x : x[1] = name) IN IF Len(q) = 0 THEN "absent" ELSE q[1][2]
Syn(x) == StartsWith(x, "BAD_SYNTAX")
JudgeC28(t) ==
  LET m == t.in want == ContentNotes(m, t.out.det) IN
  NotesDiff(SelectSeq(t.out.notes, LAMBDA n : n.n # "CONTENT_TYPE_MISMATCH" \/ CtType(m) \notin AnyType), ContentVocab, SelectSeq(want, LAMBDA x : ~Syn(x)))
  \cup NotesDiff(SelectSeq(t.out.notes, LAMBDA n : n.k \in {"BAD_SYNTAX(Content-Type)", "BAD_SYNTAX(Content-Disposition)"}), {"BAD_SYNTAX"}, SelectSeq(want, LAMBDA x : Syn(x)))
  \cup (IF CtPresent(m) THEN Clause(ParsedOf(t, "content-type") = CtText(m), "Content-Type parsed to " \o ParsedOf(t, "content-type") \o " not " \o CtText(m)) ELSE {})
  \cup (IF Present(m.headers, "content-disposition") THEN Clause(ParsedOf(t, "content-disposition") = CdText(m), "Content-Disposition parsed to " \o ParsedOf(t, "content-disposition") \o " not " \o CdText(m)) ELSE {})
  \cup UNION {LET n == t.out.notes[k] IN
       (IF n.n \in {"CHARSET_UNDECODABLE", "CHARSET_IMPLICIT_MISMATCH", "CHARSET_MISMATCH"}
        THEN Clause(n.v.declared_charset = "s" \o DeclaredCharset(m), n.n \o " says that " \o n.v.declared_charset \o " was declared") ELSE {})
       \cup (IF n.n = "CONTENT_TYPE_MISMATCH" THEN Clause(n.v.declared_type = "s" \o CtType(m) /\ (Recognised(Start(m)) # "" => n.v.sniffed_type = "s" \o Recognised(Start(m))),
               "CONTENT_TYPE_MISMATCH says " \o n.v.declared_type \o " but looks like " \o n.v.sniffed_type) ELSE {}) : k \in 1..Len(t.out.notes)}
=============================================================================
