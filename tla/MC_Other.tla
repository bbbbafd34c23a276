------------------------------ MODULE MC_Other ------------------------------
(* One or two lines of every field that has a rule of its own, of a few values each. *)
EXTENDS OtherFields
CONSTANT Both2
VARIABLES m, done, Notes
ValuesOf(f) ==
  CASE f = "via" -> {"", ",", "1.1 a", "1.1 a (x, y), 1.0 b", "HTTP/1.1 a (\"x, 1.0 b", "1.0 b (x \\), y)"}
    [] f = "server" -> {"a/1", "a (b, c)", "a (b, c", "(\", a", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa, b"}
    [] f = "server-timing" -> {"a", "a;dur=1;desc=x", "a; DUR=\"1.5\"; Desc=\"x, y\", b", "a;dur=1_0", "a;dur=-.5e+3;desc", "a;dur=1.;desc*=utf-8''x", "a;dur=nan;dur=2", ";dur=1", "a;dur"}
    [] f = "pragma" -> {"no-cache", "NO-Cache, no-cache", "no-cache, x", "x", "", "\"no-cache\"", "no-cache=1"}
    [] f = "max-forwards" -> {"0", "x"}
    [] f = "expect" -> {"100-continue", "100-CONTINUE, x", "Y, Z=1", "", "100-continue;a=b"}
    [] f = "clear-site-data" -> {"", "\"cache\"", "cache", "\"Cache\"", "\"*\", cookies, \"cookies\"", "\"\"", "\"executionContexts\",\"x, y\"", "\"", "\"cache\" , storage, x"}
    [] f = "alt-svc" -> {"clear", "clear, h3=\":443\"", "h3=\":443\"; ma=1, h2=\"a, b\"", "Clear, clear", "x", "x, clear", ""}
    [] f \in {"age", "access-control-max-age"} -> {"0", "-0", "-1", "007", "+1", "", "1.0", "2147483648", "2147483649", "002147483648", "-2147483649", "1, 2", " 5 "}
    [] f = "etag" -> {"\"a\"", "W/\"a\\b\"", "w/\"a\"", "a", "\"", "W/", "\"a\", \"b\"", "\"\""}
    [] f = "cookie" -> {"a=b; c=d", "a", "=b;;", "a=b=c", " ; ", "\"a;b\"=c", "a = b"}
    [] f \in {"if-match", "if-none-match"} -> {"\"a\", W/\"b\"", "*", "\"a\\\", \"b\"", "\"a, b\"", "\"a"}
    [] f \in {"www-authenticate", "proxy-authenticate"} -> {"Basic realm=\"a, b\", c=d", "c=d, Basic", "Basic, Digest a=b, c = \"d\", Negotiate", ""}
    [] OTHER -> {"", "a", "a, b", " x "}
Fields == OtherFields
Req(h, me, ver) == [kind |-> "request", top |-> <<me, "http://e.com/", ver>>, headers |-> h]
Resp(h) == [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> h]
As(f, h) == {Req(h, me, ver) : me \in IF f = "max-forwards" THEN {"GET", "TRACE", "OPTIONS", "Trace"} ELSE {"GET"}, ver \in IF f = "expect" THEN {"HTTP/1.1", "HTTP/1.0", "1.0", "HTTP/1.00"} ELSE {"HTTP/1.1"}}
Of(f) == IF f \in Both THEN "both" ELSE IF f \in Asked THEN "request" ELSE "response"
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \E f \in Fields : \E v \in ValuesOf(f) : \E h \in {<< <<f, v>> >>} \cup {<< <<f, v>>, <<f, w>> >> : w \in IF Both2 THEN ValuesOf(f) ELSE {}} :
             m \in (IF Of(f) # "response" THEN As(f, h) ELSE {}) \cup (IF Of(f) # "request" THEN {Resp(h)} ELSE {})
Next == ~done /\ done' = TRUE /\ Notes' = OtherNotes(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
F == m.headers[1][1]
Two == Len(m.headers) = 2
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], n)
CountN(n) == Cardinality({k \in 1..Len(Notes) : StartsWith(Notes[k], n)})
\* every member of a list counts, on whichever line it is
Joins == Kind(F) = "list" /\ F \notin Challenges
Joined == [m EXCEPT !.headers = << <<F, m.headers[1][2] \o ", " \o m.headers[2][2]>> >>]
Enclosed(s) == Has(s, "\"") \/ Has(s, "(")
OneList == done /\ Two /\ Joins /\ ~Enclosed(m.headers[1][2]) => OtherParsed(Joined, F) = OtherParsed(m, F) /\ Len(OtherNotes(Joined)) = Len(Notes)
\* each metric has a duration, or lacks one, or has one that is no number
Timing == done /\ F = "server-timing" => LET q == Vals(OfMembers(m, F)) IN
  CountN("SERVER_TIMING_MISSING_DUR") + CountN("SERVER_TIMING_BAD_PARAM") + Cardinality({k \in 1..Len(q) : LET d == StParams(q[k]).d IN HasName(d, "dur") /\ FullMatch(Float, ValueIn(d, "dur"))}) = Len(q)
\* a number of seconds is one of four things, and is read only if it is no error
Seconds == done /\ F = "age" => /\ Len(Notes) <= 1
                                /\ ((HasN("AGE_NOT_INT") \/ HasN("AGE_NEGATIVE")) <=> OtherParsed(m, F) = "None")
\* Clear-Site-Data isn't silently ignored: something is said about any value
Spoken == done /\ F = "clear-site-data" => Notes # <<>>
Cleared == done /\ F = "clear-site-data" /\ HasN("CSD_PRESENT") => \E k \in 1..Len(OfMembers(m, F)) : CsdQuoted(OfMembers(m, F)[k].v)
\* "clear" is only right alone
Alone == done /\ F = "alt-svc" /\ ~Two /\ m.headers[1][2] = "clear" => Notes = <<>>
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
