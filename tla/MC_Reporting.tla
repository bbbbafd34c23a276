------------------------------ MODULE MC_Reporting ------------------------------
(* Reporting configuration made of short sequences of members, and JSON texts of every short sequence of pieces. *)
EXTENDS Reporting
CONSTANTS Part, MaxJson
NelPieces == {"\"report_to\":\"a\"", "\"report_to\":\"b\"", "\"report_to\":\"\"", "\"report_to\":1", "\"max_age\":1", "\"max_age\":-1", "\"max_age\":true", "\"include_subdomains\":false", "\"include_subdomains\":\"true\"", "\"success_fraction\":0.5", "\"failure_fraction\":1.5", "\"x\":{\"report_to\":[]}"}
EndpointValues == {"a=\"https://e.com/\"", "a=\"http://e.com/\", b=\"wss://e.com/\"", "b=\"/r\", a=\"data:,\"", "a=1, b", "a=", ""}
GroupPieces == {"\"max_age\":1", "\"max_age\":\"1\"", "\"max_age\":-0", "\"max_age\":1e2", "\"endpoints\":[]", "\"endpoints\":{}", "\"endpoints\":[{\"url\":\"https://e.com/\"},{}]", "\"endpoints\":[{\"url\":null}, 1]", "\"group\":1"}
Fractions == {"0", "1", "1.0", "0.0", "-0", "-0.0", "1e0", "10e-1", "1.0000", "1.01", "0.99", "2", "1e1", "1E-9", "100e-2", "101e-2", "-0.1", "0e5", "0.1e+1", "0.11E1", "NaN", "Infinity", "true", "\"1\"", "-1", "01", "1.", "null"}
Ages == {"0", "1", "-0", "-1", "1.0", "1e2", "true", "\"1\"", "null", "[]", "{}", "99999999999999999999", "-00", "NaN", "[1]", ""}
JsonPieces == {"{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\\", "n", "u0041", "1", "-", "0", ".", "e", "E+", " ", "true", "null", "\t", "/"}
VARIABLES m, done, Notes
Resp(h) == [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> h]
SeqsTo(X, k) == UNION {[1..n -> X] : n \in 0..k}
Obj(q) == "{" \o Join(q, ",") \o "}"
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \/ /\ Part = "nel"
              /\ \/ \E q \in SeqsTo(NelPieces, 3), e \in EndpointValues : m = Resp(<< <<"NEL", Obj(q)>>, <<"Reporting-Endpoints", e>> >>)
                 \/ \E p \in NelPieces, q \in NelPieces, e \in EndpointValues : m = Resp(<< <<"nel", Obj(<<p, "\"max_age\":5">>)>>, <<"reporting-endpoints", e>>, <<"nel", Obj(<<q>>) \o ", " \o Obj(<<p, q>>)>> >>)
                 \/ \E p \in NelPieces, e \in EndpointValues, x \in {"", "1", "[]", "{}", "{},", " "}, y \in {"", "null"} : m = Resp(<< <<"nel", x>>, <<"nel", Obj(<<p, "\"max_age\":5">>) \o ", " \o Obj(<<"\"report_to\":\"a\"", "\"max_age\":5">>)>>, <<"Nel", y>>, <<"reporting-endpoints", e>> >>)
                 \/ \E f \in Fractions, g \in Fractions : m = Resp(<< <<"NEL", Obj(<<"\"report_to\":\"a\"", "\"success_fraction\":" \o f, "\"max_age\":9", "\"failure_fraction\":" \o g>>)>>, <<"reporting-endpoints", "a=\"/\"">> >>)
                 \/ \E a \in Ages, p \in NelPieces : m = Resp(<< <<"NEL", Obj(<<"\"max_age\":" \o a, p>>)>>, <<"Report-To", Obj(<<"\"max_age\":" \o a, "\"endpoints\":" \o a>>)>> >>)
           \/ /\ Part = "group" /\ \E q \in SeqsTo(GroupPieces, 3), p \in GroupPieces : m = Resp(<< <<"Report-To", Obj(q)>>, <<"report-to", Obj(<<p>>)>> >>)
           \/ /\ Part = "json" /\ \E q \in SeqsTo(JsonPieces, MaxJson) : m = Resp(<< <<"Report-To", Join(q, "")>> >>)
Next == ~done /\ done' = TRUE /\ Notes' = ReportingNotes(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
Nm(k) == Before(Before(k, "@"), "(")
NotesAre == {Nm(Notes[k]) : k \in 1..Len(Notes)}

\* serialising
RECURSIVE Ser(_)
Quoted1(s) == "\"" \o Join([k \in 1..Len(s) |-> IF Ch(s, k) \in {"\"", "\\"} THEN "\\" \o Ch(s, k) ELSE Ch(s, k)], "") \o "\""
Ser(v) == CASE v.t = "s" -> Quoted1(v.s)
            [] v.t = "a" -> "[" \o Join([k \in 1..Len(v.q) |-> Ser(v.q[k])], ",") \o "]"
            [] v.t = "o" -> "{" \o Join([k \in 1..Len(v.q) |-> Quoted1(v.ks[k]) \o ":" \o Ser(v.q[k])], ",") \o "}"
            [] OTHER -> v.s
Texts == {LinesOf(m.headers, "report-to")[k][2] : k \in 1..Len(LinesOf(m.headers, "report-to"))}
RoundTrip == done => \A s \in Texts : LET r == JRead(s) IN r.ok => JRead(Ser(r.v)) = [r EXCEPT !.i = Len(Ser(r.v)) + 1]
\* a text that's read takes up all of it, and isn't read with anything but white space after
Whole == done => \A s \in Texts : LET r == JRead(s) IN r.ok => (JRead(" " \o s \o "\t").v = r.v /\ ~JRead(s \o ",").ok /\ ~JRead(s \o "x").ok /\ ~JRead("," \o s).ok /\ ~JRead("[" \o s).ok /\ ~JRead(s \o "]").ok)
Within == done => \A s \in Texts : LET r == JRead(s) IN r.ok => JRead("[" \o s \o "]").v.q = <<r.v>> /\ JRead("{\"x\":" \o s \o "}").v.q = <<r.v>>
\* lines are members
Lines == done /\ Part = "group" => (JsonOk(m, "report-to") => \A k \in 1..Len(m.headers) : JRead(m.headers[k][2]).ok)

\* Network Error Logging is configured exactly where some policy is faultless and names an endpoint of use
Policies1 == IF JsonOk(m, "nel") THEN SeqSet(JsonOf(m, "nel").v.q) ELSE {}
Configured == done /\ Part = "nel" => (("NEL_CONFIGURED" \in NotesAre) <=> \E p \in Policies1 : NelPolicy(p) = <<>> /\ JGet(p, "report_to").s \in Usable(m))
Faultless == done /\ Part = "nel" => \A p \in Policies1 : NelPolicy(p) = <<>> =>
   (p.t = "o" /\ JHas(p, "report_to") /\ JHas(p, "max_age") /\ JGet(p, "report_to").t = "s" /\ JInt(JGet(p, "max_age")) /\ ~JNegative(JGet(p, "max_age")))
\* what a policy doesn't say can't be wrong with it, and members nobody knows don't matter
Subset(p) == \A k \in 1..Len(p.ks) : p.ks[k] \notin {"report_to", "max_age"} => LET o == [p EXCEPT !.ks[k] = "unknown"] IN SeqSet(NelPolicy(o)) \subseteq SeqSet(NelPolicy(p))
MembersApart == done /\ Part = "nel" => \A p \in Policies1 : p.t = "o" => Subset(p)
\* in whichever order
Backwards(p) == [p EXCEPT !.ks = [k \in 1..Len(@) |-> p.ks[Len(@) + 1 - k]], !.q = [k \in 1..Len(@) |-> p.q[Len(@) + 1 - k]]]
Order == done /\ Part = "nel" => \A p \in Policies1 : p.t = "o" => NelPolicy(Backwards(p)) = NelPolicy(p)
OneConfigured == done => Len(SelectSeq(Notes, LAMBDA x : Nm(x) = "NEL_CONFIGURED")) <= 1
\* without NEL's notes on the endpoints, the endpoints have the same
Apart == done => LET o == [m EXCEPT !.headers = SelectSeq(@, LAMBDA h : Lower(h[1]) # "nel")] IN
  ReportingNotes(o) = SelectSeq(Notes, LAMBDA x : ~StartsWith(x, "NEL") /\ ~Contains(x, "@nel") /\ ~(Nm(x) = "BAD_JSON" /\ Contains(x, "nel")))
\* fractions: decided as decimals
FractionOf == done /\ Part = "nel" => \A p \in Policies1 : p.t = "o" => \A k \in 1..Len(p.q) : (p.ks[k] \in {"success_fraction", "failure_fraction"} /\ p.q[k].t = "n") =>
  (JFraction(p.q[k]) => Ch(p.q[k].s, 1) # "-" \/ JFraction([p.q[k] EXCEPT !.s = From(@, 2)]))
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
