------------------------------ MODULE Policies ------------------------------
(***************************************************************************)
(* Security policies of a response: Strict-Transport-Security (RFC 6797),  *)
(* Content-Security-Policy (CSP3), and those of a single token.            *)
(***************************************************************************)
EXTENDS SfFields, Uri

NamedBy(n, x) == n \o "(" \o x \o ")"
BaseUri(m) == IF HasF(m, "base_uri") THEN m.base_uri ELSE ""

\* --- Strict-Transport-Security: directives between semicolons, except those in quoted strings
RECURSIVE SemiFrom(_, _, _, _)
SemiFrom(s, b, k, acc) ==
  IF k > Len(s) THEN Append(acc, Strip(SubSeq(s, b, Len(s))))
  ELSE IF Ch(s, k) = ";" THEN SemiFrom(s, k + 1, k + 1, Append(acc, Strip(SubSeq(s, b, k - 1))))
  ELSE LET e == IF Ch(s, k) = "\"" THEN QsEnd(s, k + 1) ELSE 0 IN SemiFrom(s, b, IF e = 0 THEN k + 1 ELSE e, acc)
SemiSplit(s) == SemiFrom(s, 1, 1, <<>>)
StsTrailing(s) == LET q == SemiSplit(s) IN Len(q) > 1 /\ q[Len(q)] = ""
StsDir(p) == [n |-> Lower(Strip(Before(p, "="))), has |-> Has(p, "="), v |-> Strip(After(p, "="))]
StsDirs(s) == LET q == SelectSeq(SemiSplit(s), LAMBDA p : p # "") IN [k \in 1..Len(q) |-> StsDir(q[k])] \o <<>>
RECURSIVE FirstOnly(_, _, _)
FirstOnly(q, k, acc) == IF k > Len(q) THEN acc ELSE FirstOnly(q, k + 1, IF \E j \in 1..Len(acc) : acc[j].n = q[k].n THEN acc ELSE Append(acc, q[k]))
RECURSIVE LaterOnes(_, _, _)
LaterOnes(q, k, acc) == IF k > Len(q) THEN acc ELSE LaterOnes(q, k + 1, IF \E j \in 1..(k - 1) : q[j].n = q[k].n THEN Append(acc, q[k]) ELSE acc)
HasDir(q, n) == \E k \in 1..Len(q) : q[k].n = n
DirOf(q, n) == q[CHOOSE k \in 1..Len(q) : q[k].n = n]
AgeRec(q) == IntRec(Unquote(DirOf(q, "max-age").v))
AgeGood(q) == HasDir(q, "max-age") /\ AgeRec(q).ok /\ ~AgeRec(q).neg
Year == "31536000"
Flags == {"includesubdomains", "preload"}
Spelt(n) == IF n = "preload" THEN n ELSE "includeSubDomains"
OverHttp(m) == PlainHttp(BaseUri(m)) /\ m.top[2] # "301"
\* what makes it invalid
StsFaults(m, s) ==
  LET all == StsDirs(s) q == FirstOnly(all, 1, <<>>) d == LaterOnes(all, 1, <<>>) IN
  [k \in 1..Len(d) |-> NamedBy("HSTS_DUPLICATE_DIRECTIVE", d[k].n)]
  \o One(HasDir(q, "max-age") /\ ~AgeGood(q), NamedBy("HSTS_BAD_MAX_AGE", IF DirOf(q, "max-age").has THEN DirOf(q, "max-age").v ELSE "None"))
  \o Cat([k \in 1..Len(q) |-> One(q[k].n \in Flags /\ q[k].has, NamedBy("HSTS_VALUE_NOT_ALLOWED", Spelt(q[k].n)))])
  \o One(~HasDir(q, "max-age"), "HSTS_NO_MAX_AGE")
  \o One(OverHttp(m), "HSTS_OVER_HTTP")
\* what it says
StsSays(s) ==
  LET q == FirstOnly(StsDirs(s), 1, <<>>) age == IF AgeGood(q) THEN AgeRec(q).d ELSE "" long == age # "" /\ ~NumLess(age, Year) IN
  One(StsTrailing(s), "HSTS_TRAILING_SEMICOLON")
  \o <<IF ~HasDir(q, "preload") THEN "HSTS_NO_PRELOAD" ELSE IF HasDir(q, "includesubdomains") /\ long THEN "HSTS_PRELOAD" ELSE "HSTS_PRELOAD_NOT_SUITABLE">>
  \o (IF age = "" \/ long THEN <<>> ELSE IF age = "0" THEN <<"HSTS_MAX_AGE_ZERO">> ELSE <<"HSTS_SHORT_MAX_AGE">>)
  \o <<IF HasDir(q, "includesubdomains") THEN "HSTS_SUBDOMAINS" ELSE "HSTS_NO_SUBDOMAINS">>
StsName == "strict-transport-security"
StsHere(m) == m.kind = "response" /\ Present(m.headers, StsName)
StsSubs(m) == IF ~StsHere(m) THEN <<>> ELSE LET s == OneOf(m.headers, StsName) IN StsFaults(m, s) \o StsSays(s)
StsNotes(m) == IF ~StsHere(m) THEN <<>> ELSE On(StsName, <<IF StsFaults(m, OneOf(m.headers, StsName)) = <<>> THEN "HSTS_VALID" ELSE "HSTS_INVALID">>)
StsText(s) == LET q == FirstOnly(StsDirs(s), 1, <<>>) B(n) == IF HasDir(q, n) THEN "True" ELSE "False" IN
  "{smax-age:" \o (IF AgeGood(q) THEN "i" \o AgeRec(q).d ELSE "None") \o ",sincludesubdomains:" \o B("includesubdomains") \o ",spreload:" \o B("preload") \o "}"
StsVocab == {"HSTS_VALID", "HSTS_INVALID"}

\* --- Content-Security-Policy: a policy per member, directives between semicolons
CspDir(p) == LET w == Words(p) IN [n |-> Lower(w[1]), v |-> Strip(From(p, Len(w[1]) + 1))]
CspDirs(p) == LET q == SelectSeq(Split(p, ";"), LAMBDA d : Strip(d) # "") IN [k \in 1..Len(q) |-> CspDir(Strip(q[k]))] \o <<>>
Effective(p) == FirstOnly(CspDirs(p), 1, <<>>)
Bullets(q) == Join([k \in 1..Len(q) |-> "* `" \o Join(Split(q[k].n, "`"), "") \o "`"], "\n")
Fetching == {"script-src", "style-src", "object-src"}
\* source expressions are compared without regard to letter case
Allows(d, src) == src \in SeqSet(Words(Lower(d.v)))
Reported(name, q) == One(q # <<>>, NamedBy(name, Bullets(q)))
Declared(m) == IF ~SfOk(m, "reporting-endpoints") THEN {} ELSE LET q == SfRead(m, "reporting-endpoints").q IN {q[k].k : k \in 1..Len(q)}
CspFields == {"content-security-policy", "content-security-policy-report-only"}
CspMembers(m, f) == IF m.kind # "response" THEN <<>> ELSE LET q == LinesOf(m.headers, f) IN Cat([k \in 1..Len(q) |-> CommaSplit(q[k][2])])
CspSubs(m, f) ==
  LET ps == CspMembers(m, f)
      eff == Cat([k \in 1..Len(ps) |-> Effective(ps[k])])
      Those(T(_)) == SelectSeq(eff, T) IN
  Cat([k \in 1..Len(ps) |-> Reported("CSP_DUPLICATE_DIRECTIVE", LaterOnes(CspDirs(ps[k]), 1, <<>>))])
  \o One(HasDir(eff, "report-uri"), "CSP_DEPRECATED_REPORT_URI")
  \o Reported("CSP_WIDE_OPEN", Those(LAMBDA d : d.n \in Fetching /\ Allows(d, "*")))
  \o Reported("CSP_UNSAFE_INLINE", Those(LAMBDA d : Allows(d, "'unsafe-inline'")))
  \o Reported("CSP_UNSAFE_EVAL", Those(LAMBDA d : Allows(d, "'unsafe-eval'")))
  \o Reported("CSP_HTTP_URI", Those(LAMBDA d : Allows(d, "http:")))
  \o Cat([k \in 1..Len(eff) |-> One(eff[k].n = "report-to" /\ eff[k].v \notin Declared(m), NamedBy("CSP_REPORT_TO_MISSING", eff[k].v))])
CspNote(f) == NoteKey(NamedBy("CONTENT_SECURITY_POLICY", IF f = "content-security-policy" THEN "" ELSE " for reporting only"), "field-" \o f)
CspNotes(m) == Cat([k \in 1..2 |-> LET f == <<"content-security-policy", "content-security-policy-report-only">>[k] IN One(CspMembers(m, f) # <<>>, CspNote(f))])
CspText(m, f) == LET ps == CspMembers(m, f) IN
  "[" \o Join([k \in 1..Len(ps) |-> LET e == Effective(ps[k]) IN "{" \o Join([j \in 1..Len(e) |-> "s" \o e[j].n \o ":s" \o e[j].v], ",") \o "}"], ",") \o "]"
CspVocab == {"CONTENT_SECURITY_POLICY"}

\* --- single tokens
Strictly == {"no-referrer", "same-origin", "strict-origin", "strict-origin-when-cross-origin"}
Referring == Strictly \cup {"no-referrer-when-downgrade", "origin", "origin-when-cross-origin", "unsafe-url"}
ListOf(m, f) == LET q == Members(m.headers, f) IN [k \in 1..Len(q) |-> q[k][2]] \o <<>>
Lowered(q) == [k \in 1..Len(q) |-> Lower(q[k])] \o <<>>
ReferrerNotes(m) ==
  IF ~Present(m.headers, "referrer-policy") THEN <<>>
  ELSE LET q == Lowered(ListOf(m, "referrer-policy")) known == SelectSeq(q, LAMBDA x : x \in Referring) bad == SelectSeq(q, LAMBDA x : x \notin Referring) IN
  [k \in 1..Len(bad) |-> NamedBy("REFERRER_POLICY_UNKNOWN", bad[k])]
  \o (IF known = <<>> THEN <<"REFERRER_POLICY_EMPTY">>
      ELSE LET e == known[Len(known)] IN      \* the last one recognised counts
        One(Len(known) > 1, NamedBy("REFERRER_POLICY_MULTIPLE", e))
        \o One(e = "unsafe-url", "REFERRER_POLICY_UNSAFE") \o One(e \in Strictly, NamedBy("REFERRER_POLICY_STRICT", e)))
SniffNotes(m) ==
  IF ~Present(m.headers, "x-content-type-options") THEN <<>>
  ELSE LET q == ListOf(m, "x-content-type-options") IN
    IF q # <<>> /\ Lower(q[1]) = "nosniff" THEN <<"CONTENT_TYPE_OPTIONS">> ELSE <<"CONTENT_TYPE_OPTIONS_UNKNOWN">>
FrameNotes(m) ==
  IF ~Present(m.headers, "x-frame-options") THEN <<>>
  ELSE LET v == ToUpper(OneOf(m.headers, "x-frame-options")) IN
    <<IF v = "DENY" THEN "FRAME_OPTIONS_DENY" ELSE IF v = "SAMEORIGIN" THEN "FRAME_OPTIONS_SAMEORIGIN" ELSE "FRAME_OPTIONS_UNKNOWN">>
Corp == ("same-origin" :> "CORP_SAME_ORIGIN") @@ ("same-site" :> "CORP_SAME_SITE") @@ ("cross-origin" :> "CORP_CROSS_ORIGIN")
CorpNotes(m) ==
  IF ~Present(m.headers, "cross-origin-resource-policy") THEN <<>>
  ELSE LET v == OneOf(m.headers, "cross-origin-resource-policy") IN <<IF v \in DOMAIN Corp THEN Corp[v] ELSE NamedBy("CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE", v)>>
Coop == ("same-origin" :> "COOP_SAME_ORIGIN") @@ ("same-origin-allow-popups" :> "COOP_SAME_ORIGIN_ALLOW_POPUPS") @@ ("unsafe-none" :> "COOP_UNSAFE_NONE")
Coep == ("require-corp" :> "COEP_REQUIRE_CORP") @@ ("credentialless" :> "COEP_CREDENTIALLESS") @@ ("unsafe-none" :> "COEP_UNSAFE_NONE")
CoFields == {"cross-origin-opener-policy", "cross-origin-embedder-policy"}
CoIsOpener(f) == f = "cross-origin-opener-policy"
\* f is the enforcing field's name; only says which of the two it is
CoNotes(m, f, only) ==
  LET name == IF only THEN f \o "-report-only" ELSE f
      ro == IF only THEN " (for reporting only)" ELSE "" IN
  IF ~SfOk(m, name) THEN <<>>
  ELSE LET x == SfRead(m, name).q[1]
           table == IF CoIsOpener(f) THEN Coop ELSE Coep
           pre == IF CoIsOpener(f) THEN "COOP" ELSE "COEP" IN
    One(only /\ Present(m.headers, f), pre \o "_REPORT_ONLY_DUPLICATE")
    \o <<NamedBy(IF IsTok(x.v) /\ Text1(x.v) \in DOMAIN table THEN table[Text1(x.v)]
                 ELSE IF CoIsOpener(f) THEN "CROSS_ORIGIN_OPENER_POLICY_BAD_VALUE" ELSE "CROSS_ORIGIN_EMBEDDER_POLICY_BAD_VALUE", ro)>>
    \o (IF ~HasKey(x.ps, "report-to") THEN <<>>
        ELSE LET r == Get(x.ps, "report-to") IN
          One((IsTok(r) \/ IsStr(r)) /\ Text1(r) \notin Declared(m), NamedBy(pre \o "_REPORT_TO_MISSING", Text1(r) \o "," \o ro)))
TokenNotes(m) ==
  IF m.kind # "response" THEN <<>>
  ELSE On("referrer-policy", ReferrerNotes(m)) \o On("x-content-type-options", SniffNotes(m)) \o On("x-frame-options", FrameNotes(m))
       \o On("cross-origin-resource-policy", CorpNotes(m))
       \o Cat([k \in 1..4 |-> LET f == <<"cross-origin-opener-policy", "cross-origin-embedder-policy">>[1 + (k % 2)] only == k > 2 IN
               On(IF only THEN f \o "-report-only" ELSE f, CoNotes(m, f, only))])
CredText(m) == IF OneOf(m.headers, "access-control-allow-credentials") = "true" THEN "strue" ELSE "None"
TokenText(m, f) ==
  CASE f = "x-frame-options" -> "s" \o ToUpper(OneOf(m.headers, f))
    [] f = "cross-origin-resource-policy" -> "s" \o OneOf(m.headers, f)
    [] f = "access-control-allow-credentials" -> CredText(m)
    [] f = "referrer-policy" -> "[" \o Join([k \in 1..Len(ListOf(m, f)) |-> "s" \o Lower(ListOf(m, f)[k])], ",") \o "]"
    [] OTHER -> "[" \o Join([k \in 1..Len(ListOf(m, f)) |-> "s" \o ListOf(m, f)[k]], ",") \o "]"
TokenFields == {"x-frame-options", "cross-origin-resource-policy", "access-control-allow-credentials", "referrer-policy", "x-content-type-options"}
TokenVocab == {"REFERRER_POLICY_" \o n : n \in {"UNKNOWN", "EMPTY", "MULTIPLE", "UNSAFE", "STRICT"}} \cup {"CONTENT_TYPE_OPTIONS", "CONTENT_TYPE_OPTIONS_UNKNOWN"}
  \cup {"FRAME_OPTIONS_" \o n : n \in {"DENY", "SAMEORIGIN", "UNKNOWN"}} \cup {Corp[n] : n \in DOMAIN Corp} \cup {Coop[n] : n \in DOMAIN Coop} \cup {Coep[n] : n \in DOMAIN Coep}
  \cup {"CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE", "CROSS_ORIGIN_OPENER_POLICY_BAD_VALUE", "CROSS_ORIGIN_EMBEDDER_POLICY_BAD_VALUE",
        "COOP_REPORT_ONLY_DUPLICATE", "COEP_REPORT_ONLY_DUPLICATE", "COOP_REPORT_TO_MISSING", "COEP_REPORT_TO_MISSING"}
=============================================================================
