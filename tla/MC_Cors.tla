------------------------------ MODULE MC_Cors ------------------------------
EXTENDS Cors
CONSTANTS Methods, Origins, Allows, Extra
VARIABLES m, done, Notes
RECURSIVE Subs(_)
Subs(s) == IF s = {} THEN {<<>>} ELSE LET f == CHOOSE x \in s : TRUE rest == Subs(s \ {f}) IN rest \cup {<< <<f, "x">> >> \o q : q \in rest}
OLine(o) == IF o = "none" THEN <<>> ELSE << <<"origin", o>> >>
ALine(a) == IF a = "none" THEN <<>> ELSE << <<"access-control-allow-origin", a>> >>
Req(me, o, q) == [kind |-> "request", top |-> <<me, "http://e.com/", "HTTP/1.1">>, headers |-> OLine(o) \o q]
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \/ \E me \in Methods, o \in Origins, q \in Subs({ReqMeth, ReqHdrs}) : m = Req(me, o, q)
           \/ \E a \in Allows, x \in Subs(Extra) : m = [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> ALine(a) \o x]
           \/ \E me \in Methods, o \in Origins, q \in Subs({ReqMeth}), a \in Allows, x \in Subs(Extra) :
                m = [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> ALine(a) \o x, related |-> Req(me, o, q)]
Next == ~done /\ done' = TRUE /\ Notes' = CorsNotes(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], n \o "@")
Verdicts == {k \in 1..Len(Notes) : StartsWith(Notes[k], "CORS_ORIGIN_")}
OneVerdict == Cardinality(Verdicts) <= 1 /\ (Verdicts # {} => m.kind = "response" /\ Asked(m))
NotBoth == ~(HasN("CORS_PREFLIGHT_RESPONSE") /\ HasN("CORS_PREFLIGHT_ONLY"))
\* a complete preflight lacks nothing
Complete == m.kind = "request" /\ IsPreflight(m) => ~HasN("CORS_PREFLIGHT_REQ_METHOD_WRONG") /\ ~HasN("CORS_PREFLIGHT_REQ_NO_ORIGIN") /\ ~HasN("CORS_PREFLIGHT_REQ_NO_METHOD")
Incomplete == done /\ m.kind = "request" /\ ~IsPreflight(m) /\ (Present(m.headers, ReqMeth) \/ Present(m.headers, ReqHdrs)) => Notes # <<>>
\* comparing an origin with itself: it is written canonically
SelfMatch == done /\ m.kind = "request" /\ Present(m.headers, "origin") /\ OriginValid(m.headers) /\ OriginOf(m.headers) # "null" =>
             OriginOf(<< <<"origin", OriginOf(m.headers)>> >>) = OriginOf(m.headers)
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
