----------------------------- MODULE Totality -----------------------------
(***************************************************************************)
(* A linter's calls, in the order of a message's life, and what may be     *)
(* observed of each: that it returns.  There is no step by which a call    *)
(* raises, whatever its argument is.                                       *)
(***************************************************************************)
EXTENDS Text
\* the calls in the order they may be made; link: the related message is made known
CallKinds == <<"link", "top", "headers", "chunk", "finish">>
Rank(c) == CASE c = "top" -> 1 [] c = "headers" -> 2 [] c = "chunk" -> 3 [] c = "finish" -> 4 [] OTHER -> 0
\* a life: top line, header section and content each may be missing, in this order, and the end comes once
MayFollow(q, c) == LET ks == SelectSeq(q, LAMBDA x : x # "link")
                       last == IF ks = <<>> THEN 0 ELSE Rank(ks[Len(ks)])
                   IN IF c = "link" THEN last < 4 /\ CountIn(q, "link") = 0
                      ELSE IF c = "chunk" THEN last <= 3 ELSE last < Rank(c)
IsLife(q) == \A k \in 1..Len(q) : MayFollow(SubSeq(q, 1, k - 1), q[k])
Ended(q) == CountIn(q, "finish") = 1

\* what can be said of any note
NoteLevels == {"GOOD", "WARN", "BAD", "INFO"}
NoteCategories == {"GENERAL", "CONNECTION", "SECURITY", "CORS", "COOKIES", "CONNEG", "CACHING", "VALIDATION", "RANGE"}
\* the line a subject names exists; both sections count from 0
OffsetOk(w, n) == ~StartsWith(w, "offset-") \/ (LET d == From(w, 8) IN IsDigits(d) /\ ~Big(d) /\ Num(d) < n)
SubjectOk(s, n) == LET ws == Words(s) IN \A k \in 1..Len(ws) : OffsetOk(ws[k], n)
=============================================================================
