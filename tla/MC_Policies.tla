------------------------------ MODULE MC_Policies ------------------------------
(* Policies made of every short sequence of a few directives or values. *)
EXTENDS Policies
CONSTANTS Part, StsPieces, MaxSts, Bases, StatusCodes, CspPieces, MaxCsp, Endpoints, TokenValues, TokenLast, CoValues
\* (strings in a configuration file have no escapes)
CspPiecesInCsp == {"script-src 'unsafe-inline'", "SCRIPT-SRC\t*  'Unsafe-Eval'", "style-src * http:", "img-src * HTTP:", "report-uri /'unsafe-inline'", "report-to a", "report-to b", "Report-To a b", "default-src http://e.com 'unsafe-inline'x", "object-src", "x", "", "script-src a,b 'unsafe-eval'"}
EndpointsInCsp == {"a=\"https://e.com/\"", "b=\"/x\", a=1", "a=", "B"}
StsPiecesInSts == {"max-age=31536000", "MAX-AGE = \"31535999\"", "max-age=0", "max-age", "max-age=-1", "max-age=99999999999", "max-age=1 0", "max-age=\"1;preload\"", "includeSubDomains", "includesubdomains=1", "preload", "Preload=", "x=\";max-age=5\"", "x=\"y", "", " "}
EndpointsInToken == {"a=\"https://e.com/\"", "b=1, c", "a=", ""}
CoValuesInToken == {"same-origin", "same-origin;report-to=a", "unsafe-none; report-to=\"a\"", "require-corp;report-to=b", "credentialless", "\"same-origin\"", "Same-Origin", "same-origin-allow-popups;report-to=\"\"", "unsafe-none;report-to", "1;report-to=c", "same-origin;report-to=:YQ==:", ""}
VARIABLES m, done, Notes, Subs1
Resp(h) == [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> h]
SeqsTo(X, k) == UNION {[1..n -> X] : n \in 0..k}
StsOf(q) == Join(q, ";")
Lists == {"referrer-policy", "x-content-type-options"}
Singles == {"x-frame-options", "cross-origin-resource-policy", "access-control-allow-credentials"}
Init == /\ done = FALSE /\ Notes = <<>> /\ Subs1 = <<>>
        /\ \/ /\ Part = "sts"
              /\ \/ \E q \in SeqsTo(StsPieces, MaxSts) : m = Resp(<< <<"Strict-Transport-Security", StsOf(q)>> >>)
                 \/ \E p \in StsPieces, b \in Bases, c \in StatusCodes : m = [Resp(<< <<"strict-transport-security", p>> >>) EXCEPT !.top = <<"HTTP/1.1", c, "x">>] @@ [base_uri |-> b]
           \/ /\ Part = "csp"
              /\ \/ \E q \in SeqsTo(CspPieces, MaxCsp), f \in CspFields : m = Resp(<< <<f, Join(q, "; ")>> >>)
                 \/ \E p \in CspPieces, q \in CspPieces, e \in Endpoints, sep \in {", ", ",;"} : m = Resp(<< <<"content-security-policy", p \o sep \o q>>, <<"Content-Security-Policy-Report-Only", q \o ";" \o p>>, <<"reporting-endpoints", e>> >>)
           \/ /\ Part = "token"
              /\ \/ \E f \in Lists, a \in TokenValues, b \in TokenValues, c \in TokenLast : m = Resp(<< <<f, a \o "," \o b>>, <<f, c>> >>)
                 \/ \E f \in Singles, a \in TokenValues, b \in TokenValues : m = Resp(<< <<f, a>>, <<f, b>> >>)
                 \/ \E f \in CoFields, a \in CoValues, b \in CoValues, e \in Endpoints : m = Resp(<< <<f, a>>, <<f \o "-report-only", b>>, <<"reporting-endpoints", e>> >>)
                 \/ \E f \in CoFields, a \in CoValues : m = Resp(<< <<f \o "-report-only", a>> >>)
Next == /\ ~done /\ done' = TRUE
        /\ Notes' = StsNotes(m) \o CspNotes(m) \o TokenNotes(m)
        /\ Subs1' = StsSubs(m) \o CspSubs(m, "content-security-policy") \o CspSubs(m, "content-security-policy-report-only")
        /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes, Subs1>>
Nm(k) == Before(Before(k, "@"), "(")
NotesAre == {Nm(Notes[k]) : k \in 1..Len(Notes)}
SubsAre == {Nm(Subs1[k]) : k \in 1..Len(Subs1)}
V1 == m.headers[1][2]

\* Strict-Transport-Security
IsSts == done /\ Part = "sts"
StsSound == IsSts => LET q == FirstOnly(StsDirs(V1), 1, <<>>) IN
  ("HSTS_VALID" \in NotesAre) <=> (Len(q) = Len(StsDirs(V1)) /\ AgeGood(q) /\ ~OverHttp(m) /\ \A k \in 1..Len(q) : q[k].has => q[k].n \notin Flags)
StsOneVerdict == IsSts => Len(Notes) = 1
                          /\ Cardinality(SubsAre \cap {"HSTS_PRELOAD", "HSTS_PRELOAD_NOT_SUITABLE", "HSTS_NO_PRELOAD"}) = 1
                          /\ Cardinality(SubsAre \cap {"HSTS_SUBDOMAINS", "HSTS_NO_SUBDOMAINS"}) = 1
                          /\ Cardinality(SubsAre \cap {"HSTS_MAX_AGE_ZERO", "HSTS_SHORT_MAX_AGE", "HSTS_NO_MAX_AGE", "HSTS_BAD_MAX_AGE"}) <= 1
StsPreload == IsSts => (("HSTS_PRELOAD" \in SubsAre) => ("HSTS_SUBDOMAINS" \in SubsAre /\ SubsAre \cap {"HSTS_MAX_AGE_ZERO", "HSTS_SHORT_MAX_AGE", "HSTS_NO_MAX_AGE", "HSTS_BAD_MAX_AGE"} = {}))
\* an unknown directive changes nothing, wherever it stands, and an empty one neither
StsExtends == IsSts /\ SemiSplit(V1 \o ";\"\"") = Append(SemiSplit(V1), "\"\"") => /\ StsFaults(m, "new=x;" \o V1) = StsFaults(m, V1)
                       /\ StsText(V1 \o ";new=\"a;b\"") = StsText(V1)
                       /\ StsSays(";" \o V1 \o "; ;new") = SelectSeq(StsSays(V1), LAMBDA x : x # "HSTS_TRAILING_SEMICOLON")
\* the order of distinct directives doesn't matter
StsOrder == IsSts => LET ds == SemiSplit(V1) r == [k \in 1..Len(ds) |-> ds[Len(ds) + 1 - k]] IN
  SemiSplit(Join(r, ";")) = r /\ Len(FirstOnly(StsDirs(V1), 1, <<>>)) = Len(StsDirs(V1)) => SeqSet(StsFaults(m, Join(r, ";"))) = SeqSet(StsFaults(m, V1)) /\ StsText(Join(r, ";")) = StsText(V1)

\* Content-Security-Policy
IsCsp == done /\ Part = "csp"
CspBoth == IsCsp => \A f \in CspFields : LET g == IF f = "content-security-policy" THEN "content-security-policy-report-only" ELSE "content-security-policy"
                                            o == [m EXCEPT !.headers = [k \in 1..Len(@) |-> IF Lower(@[k][1]) = f THEN <<g, @[k][2]>> ELSE IF Lower(@[k][1]) = g THEN <<f, @[k][2]>> ELSE @[k]]] IN
  CspSubs(o, g) = CspSubs(m, f) /\ CspText(o, g) = CspText(m, f)
CspFirstWins == IsCsp => \A k \in 1..Len(CspMembers(m, "content-security-policy")) : LET p == CspMembers(m, "content-security-policy")[k] IN
  Effective(p \o ";" \o p) = Effective(p) /\ LaterOnes(CspDirs(p \o ";" \o p), 1, <<>>) = LaterOnes(CspDirs(p), 1, <<>>) \o CspDirs(p)
\* the letters of a source don't matter
CspCase == IsCsp => \A f \in CspFields : LET o == [m EXCEPT !.headers = [k \in 1..Len(@) |-> IF @[k][1] = "reporting-endpoints" THEN @[k] ELSE <<@[k][1], ToUpper(@[k][2])>>]] IN
  SelectSeq(CspSubs(o, f), LAMBDA x : ~StartsWith(x, "CSP_REPORT_TO")) = SelectSeq(CspSubs(m, f), LAMBDA x : ~StartsWith(x, "CSP_REPORT_TO"))
CspUnder == IsCsp => (Subs1 # <<>> => NotesAre = CspVocab)

\* single tokens
IsTokenPart == done /\ Part = "token"
Only(s) == Cardinality(NotesAre \cap s) = 1
OneVerdict == IsTokenPart => LET f == m.headers[1][1] IN
  CASE f = "referrer-policy" -> Cardinality(NotesAre \cap {"REFERRER_POLICY_EMPTY", "REFERRER_POLICY_UNSAFE", "REFERRER_POLICY_STRICT"}) <= 1
    [] f = "x-content-type-options" -> Len(Notes) = 1
    [] f = "x-frame-options" -> Len(Notes) = 1
    [] f = "cross-origin-resource-policy" -> Len(Notes) = 1
    [] OTHER -> \A k \in 1..Len(Notes) : Nm(Notes[k]) \in TokenVocab
\* a policy that is recognised is the one that counts, not one after it that isn't
LastKnown == IsTokenPart /\ m.headers[1][1] = "referrer-policy" => LET q == Lowered(ListOf(m, "referrer-policy")) k == SelectSeq(q, LAMBDA x : x \in Referring) IN
  /\ (k = <<>>) <=> ("REFERRER_POLICY_EMPTY" \in NotesAre)
  /\ k # <<>> => (("REFERRER_POLICY_STRICT" \in NotesAre) <=> (k[Len(k)] \in Strictly))
  /\ Len(SelectSeq(Notes, LAMBDA x : Nm(x) = "REFERRER_POLICY_UNKNOWN")) = Len(q) - Len(k)
\* declaring the endpoints named leaves nothing missing
DeclareAll == IsTokenPart /\ Len(m.headers) = 3 => LET o == [m EXCEPT !.headers[3] = <<"reporting-endpoints", "a=\"https://e.com/\", b=\"/\", c=1">>] IN
  \A k \in 1..Len(TokenNotes(o)) : ~Contains(TokenNotes(o)[k], "REPORT_TO_MISSING(a,") /\ ~Contains(TokenNotes(o)[k], "REPORT_TO_MISSING(c,")
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
