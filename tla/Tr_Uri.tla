------------------------------- MODULE Tr_Uri -------------------------------
EXTENDS TraceRun, UriRules
Empty(s) == LET p == Parts(s) IN (p.query[1] /\ p.query[2] = "") \/ (p.fragment[1] /\ p.fragment[2] = "") \/ (p.authority[1] /\ p.authority[2] = "")
FullUriOk(m, v) == LET r == Parts(Loc(m)) b == Parts(BaseOf(m)) IN
  ~FullMatch(RelativeRef, Loc(m)) \/ Empty(Loc(m)) \/ Loc(m) = "" \/ ~b.authority[1] \/ v = "s" \o Compose(Resolve(b, r))
ParsedOf(t, name) == LET q == SelectSeq(t.out.headers.parsed, LAMBDA x : x[1] = name) IN IF Len(q) = 0 THEN "absent" ELSE q[1][2]
JudgeC27(t) ==
  LET m == t.in IN
  NotesDiff(t.out.notes, UriFieldVocab, SelectSeq(UriNotes(m), LAMBDA x : ~StartsWith(x, "BAD_SYNTAX")))
  \cup NotesDiff(SelectSeq(t.out.notes, LAMBDA n : \E c \in UriSyntaxNames : n.k = n.n \o "(" \o c \o ")"), {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED"},
                 SelectSeq(UriNotes(m), LAMBDA x : StartsWith(x, "BAD_SYNTAX")))
  \cup (IF m.kind = "request" /\ ~HasF(m, "pad") THEN Clause(t.out.uri = UriSeen(Iri(m)), "the request URI is " \o t.out.uri \o " not " \o UriSeen(Iri(m))) ELSE {})
  \cup (IF Present(m.headers, "link") THEN Clause(ParsedOf(t, "link") = LinkValueText(m), "Link parsed to " \o ParsedOf(t, "link") \o " not " \o LinkValueText(m)) ELSE {})
  \cup UNION {LET n == t.out.notes[k] IN
       IF n.n = "URI_TOO_LONG" THEN Clause(n.v.uri_len = "s" \o ToString(UriLen(m)), "says the URI has length " \o n.v.uri_len)
       ELSE IF n.n = "LINK_RESOURCE_HINTS" THEN Clause(n.v.hints = "s" \o HintsText(m), "says the hints are " \o n.v.hints)
       ELSE IF n.n = "LOCATION_NOT_ABSOLUTE" THEN Clause(FullUriOk(m, n.v.full_uri), "says the absolute URI is " \o n.v.full_uri)
       ELSE {} : k \in 1..Len(t.out.notes)}
=============================================================================
