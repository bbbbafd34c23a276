------------------------------ MODULE Reporting ------------------------------
(***************************************************************************)
(* Configuration of reporting: Reporting-Endpoints and Speculation-Rules   *)
(* (Structured Fields), Report-To and NEL (JSON, a line is a list member). *)
(***************************************************************************)
EXTENDS Policies, JsonText

Secure(m, u) == SchemeOf(BaseUri(m), u) \in {"", "https", "wss"}
EndpointOne(m, n, x) ==
  IF ~IsStr(x.v) THEN <<NamedBy("BAD_REPORTING_ENDPOINT_SYNTAX", n \o "," \o FoundType(x))>>
  ELSE One(~Secure(m, Text1(x.v)), NamedBy("ENDPOINT_NOT_SECURE", n \o "," \o Text1(x.v)))
EndpointsNotes(m) == IF ~SfOk(m, "reporting-endpoints") THEN <<>>
  ELSE LET q == SfRead(m, "reporting-endpoints").q IN Cat([k \in 1..Len(q) |-> EndpointOne(m, q[k].k, q[k].v)])
Usable(m) == IF ~SfOk(m, "reporting-endpoints") THEN {}
  ELSE LET q == SfRead(m, "reporting-endpoints").q IN {q[k].k : k \in {j \in 1..Len(q) : IsStr(q[j].v.v) /\ Secure(m, Text1(q[j].v.v))}}
RulesNotes(m) == IF ~SfOk(m, "speculation-rules") THEN <<>>
  ELSE LET q == SfRead(m, "speculation-rules").q IN
    Cat([k \in 1..Len(q) |-> IF ~IsStr(q[k].v) THEN <<NamedBy("SPECULATION_RULES_BAD_TYPE", FoundType(q[k]))>>
                             ELSE One(~Secure(m, Text1(q[k].v)), NamedBy("SPECULATION_RULE_NOT_SECURE", Text1(q[k].v)))])

\* JSON fields: the lines are the members of one array
JsonOf(m, f) == LET ls == LinesOf(m.headers, f) IN JRead("[" \o Join([k \in 1..Len(ls) |-> ls[k][2]], ", ") \o "]")
JsonHere(m, f) == m.kind = "response" /\ Present(m.headers, f)
JsonOk(m, f) == JsonHere(m, f) /\ JsonOf(m, f).ok
JsonBad(m, f) == On(f, One(JsonHere(m, f) /\ ~JsonOf(m, f).ok, "BAD_JSON"))

Lacks(pre, key) == NamedBy(pre \o "_MISSING_KEY", key)
Mistyped(pre, key, what) == NamedBy(pre \o "_BAD_TYPE", key \o "," \o what)
EndpointJson(e) ==
  IF e.t # "o" THEN <<"REPORT_TO_BAD_STRUCTURE">>
  ELSE IF ~JHas(e, "url") THEN <<Lacks("REPORT_TO", "endpoints[].url")>>
  ELSE One(JGet(e, "url").t # "s", Mistyped("REPORT_TO", "endpoints[].url", "string"))
Group(g) ==
  IF g.t # "o" THEN <<"REPORT_TO_BAD_STRUCTURE">>
  ELSE (IF ~JHas(g, "max_age") THEN <<Lacks("REPORT_TO", "max_age")>>
        ELSE LET a == JGet(g, "max_age") IN
          IF ~JInt(a) THEN <<Mistyped("REPORT_TO", "max_age", "integer")>> ELSE One(JNegative(a), Mistyped("REPORT_TO", "max_age", "non-negative integer")))
       \o (IF ~JHas(g, "endpoints") THEN <<Lacks("REPORT_TO", "endpoints")>>
           ELSE LET e == JGet(g, "endpoints") IN
             IF e.t # "a" THEN <<Mistyped("REPORT_TO", "endpoints", "list")>> ELSE Cat([k \in 1..Len(e.q) |-> EndpointJson(e.q[k])]))
ReportToNotes(m) == IF ~JsonOk(m, "report-to") THEN <<>> ELSE LET q == JsonOf(m, "report-to").v.q IN Cat([k \in 1..Len(q) |-> Group(q[k])])

FractionOne(p, key) == IF ~JHas(p, key) THEN <<>> ELSE LET v == JGet(p, key) IN
  IF v.t # "n" THEN <<Mistyped("NEL", key, "number")>> ELSE One(~JFraction(v), NamedBy("NEL_BAD_VALUE", key))
NelPolicy(p) ==
  IF p.t # "o" THEN <<"NEL_BAD_STRUCTURE">>
  ELSE (IF ~JHas(p, "report_to") THEN <<Lacks("NEL", "report_to")>> ELSE One(JGet(p, "report_to").t # "s", Mistyped("NEL", "report_to", "string")))
       \o (IF ~JHas(p, "max_age") THEN <<Lacks("NEL", "max_age")>>
           ELSE LET a == JGet(p, "max_age") IN IF ~JInt(a) THEN <<Mistyped("NEL", "max_age", "integer")>> ELSE One(JNegative(a), NamedBy("NEL_BAD_VALUE", "max_age")))
       \o One(JHas(p, "include_subdomains") /\ JGet(p, "include_subdomains").t \notin {"True", "False"}, Mistyped("NEL", "include_subdomains", "boolean"))
       \o FractionOne(p, "success_fraction") \o FractionOne(p, "failure_fraction")
Names0(p) == IF p.t = "o" /\ JHas(p, "report_to") /\ JGet(p, "report_to").t = "s" THEN <<JGet(p, "report_to").s>> ELSE <<>>
NelNotes(m) ==
  IF ~JsonOk(m, "nel") THEN <<>>
  ELSE LET q == JsonOf(m, "nel").v.q d == Declared(m) u == Usable(m)
           good == Cat([k \in 1..Len(q) |-> IF NelPolicy(q[k]) = <<>> THEN SelectSeq(Names0(q[k]), LAMBDA x : x \in u) ELSE <<>>]) IN
    Cat([k \in 1..Len(q) |-> NelPolicy(q[k])])
    \o Cat([k \in 1..Len(q) |-> LET w == SelectSeq(Names0(q[k]), LAMBDA x : x \notin d) IN [j \in 1..Len(w) |-> NamedBy("NEL_REPORT_TO_MISSING", "report_to," \o w[j])]])
    \o One(good # <<>>, NamedBy("NEL_CONFIGURED", Join([k \in 1..Len(good) |-> "`" \o good[k] \o "`"], ", ")))
ReportingNotes(m) ==
  IF m.kind # "response" THEN <<>>
  ELSE On("reporting-endpoints", EndpointsNotes(m)) \o On("speculation-rules", RulesNotes(m)) \o On("report-to", ReportToNotes(m)) \o On("nel", NelNotes(m))
       \o JsonBad(m, "report-to") \o JsonBad(m, "nel")
ReportingVocab == {"ENDPOINT_NOT_SECURE", "BAD_REPORTING_ENDPOINT_SYNTAX", "SPECULATION_RULE_NOT_SECURE", "SPECULATION_RULES_BAD_TYPE", "BAD_JSON",
  "REPORT_TO_BAD_STRUCTURE", "REPORT_TO_MISSING_KEY", "REPORT_TO_BAD_TYPE", "NEL_BAD_STRUCTURE", "NEL_MISSING_KEY", "NEL_BAD_TYPE", "NEL_BAD_VALUE", "NEL_CONFIGURED", "NEL_REPORT_TO_MISSING"}
=============================================================================
