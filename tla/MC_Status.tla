----------------------------- MODULE MC_Status -----------------------------
(* Every status code with every combination of what its verdict may depend on. *)
EXTENDS Status
CONSTANTS Codes, Methods, ReqFields, RespFields
VARIABLES m, done, Notes
\* the fields that can matter for a code, and one that cannot
ReqRelevant(c) == CASE c \in {"100", "417"} -> {"expect"} [] c = "101" -> {"upgrade"} [] c \in {"206", "416"} -> {"range"}
                    [] c = "406" -> Negotiation [] c = "412" -> Preconditions [] OTHER -> {}
RespRelevant(c) == CASE c \in {"201", "301", "302", "303", "307", "308"} -> {"location"} [] c = "206" -> {"content-range"}
                     [] c = "304" -> {"date", "content-type", "content-encoding", "content-language"} [] c = "405" -> {"allow"} [] OTHER -> {}
ValOf(f, meth) == CASE f = "expect" -> {"100-continue", "other", "x, 100-Continue"} [] f = "allow" -> {"", meth, "PUT, X", "X, " \o meth}
                    [] f = "date" -> {"bad", ""} [] OTHER -> {"x", ""}
RECURSIVE Sections2(_, _)
Sections2(s, meth) == IF s = {} THEN {<<>>}
                ELSE LET f == CHOOSE x \in s : TRUE rest == Sections2(s \ {f}, meth) IN
                     rest \cup UNION {{<< <<f, v>> >> \o q : q \in rest} : v \in ValOf(f, meth)}
Codes3 == Codes \cup Registered
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \E c \in Codes3, meth \in Methods : \E rh \in Sections2(RespRelevant(c) \cup RespFields, meth) :
           \/ /\ meth = "GET" /\ m = [top |-> <<"HTTP/1.1", c, "OK">>, headers |-> rh]
           \/ \E qh \in Sections2(ReqRelevant(c) \cup ReqFields, meth) :
                m = [top |-> <<"HTTP/1.1", c, "OK">>, headers |-> rh,
                     related |-> [top |-> <<meth, "http://e.com/", "HTTP/1.1">>, headers |-> qh]]
Next == ~done /\ done' = TRUE /\ Notes' = StatusNotes(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
Cd == CodeOfTop(m.top)
OnlyUnregistered == done => ((\E k \in 1..Len(Notes) : Notes[k] = NoteKey("STATUS_NONSTANDARD", "status")) <=> Cd \notin Registered)
AtMostTwo == Len(Notes) <= 2
\* fields never make a code more wrong unless it is a 304, or the verdict of a 405 or 417
Gives == [m EXCEPT !.headers = @ \o << <<"location", "x">>, <<"content-range", "x">>, <<"date", "x">> >>]
Satisfied == done => Len(StatusNotes(Gives)) <= Len(Notes)
ReqGives == IF HasReq(m) THEN [m EXCEPT !.related.headers = @ \o << <<"range", "x">>, <<"upgrade", "x">>, <<"accept", "x">>, <<"if-match", "x">> >>] ELSE m
ReqSatisfied == done => Len(StatusNotes(ReqGives)) <= Len(Notes)
\* without a request nothing is held against it
NoReqNoBlame == HasReq(m) \/ \A k \in 1..Len(Notes) : ~Contains(Notes[k], "WITHOUT_PRECOND") /\ ~Contains(Notes[k], "NOT_REQUESTED")
                                                    /\ ~Contains(Notes[k], "UNEXPECTED") /\ ~Contains(Notes[k], "WITHOUT_NEGOT") /\ ~Contains(Notes[k], "SAFE_METHOD")
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
