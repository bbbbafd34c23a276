------------------------------ MODULE Tr_SetCookie ------------------------------
EXTENDS TraceRun, SetCookie
Entries(o) == {k \in 1..Len(o.headers.parsed) : o.headers.parsed[k][1] = "set-cookie"}
JudgeC19(t) == LET m == t.in o == t.out IN
  NotesDiff(o.notes, SetCookieVocab, SetCookieNotes(m))
  \cup Clause((Entries(o) # {}) = Present(m.headers, "set-cookie"), "Set-Cookie wasn't read")
  \cup UNION {Clause(o.headers.parsed[k][2] = SetCookieParsed(m), "set-cookie was read as " \o o.headers.parsed[k][2]) : k \in Entries(o)}
=============================================================================
