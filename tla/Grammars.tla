------------------------------ MODULE Grammars ------------------------------
(***************************************************************************)
(* The grammars of the fields that have one, as published, and when a      *)
(* value breaks them.  Letter case never matters, except in "true"; the    *)
(* obsolete forms of RFC 5322 aren't allowed; a list's minimum isn't       *)
(* enforced; what a challenge or credentials may hold between commas is    *)
(* RFC 9110's for recipients.                                              *)
(***************************************************************************)
EXTENDS Sections, UriRules, Dates

Ows == WS0
Rws == Plus(C(OWS))
Then(sep, g) == S(<<Ows, C({sep}), Ows, g>>)
Digits == Plus(C(Digit))
Star1 == C({"*"})
Eq == C({"="})
Slash == C({"/"})
\* weights and preferences
QValue == A(<<S(<<C({"0"}), Opt(S(<<Dot, R(C(Digit), 0, 3)>>))>>), S(<<C({"1"}), Opt(S(<<Dot, R(C({"0"}), 0, 3)>>))>>)>>)
Weight == S(<<Ows, C({";"}), Ows, L("q="), QValue>>)
LangRange == A(<<S(<<R(C(Alpha), 1, 8), Star(S(<<C({"-"}), R(C(AlNum), 1, 8)>>))>>), Star1>>)
\* language tags (RFC 5646)
An(a, b) == R(C(AlNum), a, b)
Al(a, b) == R(C(Alpha), a, b)
Dash(g) == S(<<C({"-"}), g>>)
ExtLang == S(<<Al(3, 3), R(Dash(Al(3, 3)), 0, 2)>>)
Language == A(<<S(<<Al(2, 3), Opt(Dash(ExtLang))>>), Al(4, 4), Al(5, 8)>>)
Variant == A(<<An(5, 8), S(<<C(Digit), An(3, 3)>>)>>)
Extension == S(<<C(AlNum \ {"x", "X"}), Plus(Dash(An(2, 8)))>>)
PrivateUse == S(<<L("x"), Plus(Dash(An(1, 8)))>>)
LangTag == S(<<Language, Opt(Dash(Al(4, 4))), Opt(Dash(A(<<Al(2, 2), R(C(Digit), 3, 3)>>))), Star(Dash(Variant)), Star(Dash(Extension)), Opt(Dash(PrivateUse))>>)
Grandfathered == A([k \in 1..26 |-> L(<<"en-gb-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux", "i-mingo", "i-navajo", "i-pwn",
  "i-tao", "i-tay", "i-tsu", "sgn-be-fr", "sgn-be-nl", "sgn-ch-de", "art-lojban", "cel-gaulish", "no-bok", "no-nyn", "zh-guoyu", "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang">>[k])])
LanguageTag == A(<<LangTag, PrivateUse, Grandfathered>>)
\* authentication
AuthParam == S(<<Token, Ows, Eq, Ows, A(<<Token, QuotedString>>)>>)
Token68 == S(<<Plus(C(AlNum \cup {"-", ".", "_", "~", "+", "/"})), Star(Eq)>>)
Credentials == S(<<Token, Opt(S(<<Plus(C({" "})), A(<<Token68, Opt(S(<<A(<<C({","}), AuthParam>>), Star(S(<<Ows, C({","}), Opt(S(<<Ows, AuthParam>>))>>))>>))>>)>>))>>)
\* products and comments (nested ten deep)
CText == OWS \cup CharRange(33, 39) \cup CharRange(42, 91) \cup CharRange(93, 126) \cup ObsText
QPair == S(<<C({"\\"}), C(QpChar)>>)
RECURSIVE Comment(_)
Comment(d) == S(<<C({"("}), Star(IF d = 1 THEN A(<<C(CText), QPair>>) ELSE A(<<C(CText), QPair, Comment(d - 1)>>)), C({")"})>>)
Product == S(<<Token, Opt(S(<<Slash, Token>>))>>)
Products == S(<<Product, Star(S(<<Rws, A(<<Product, Comment(10)>>)>>))>>)
\* validators
EntityTag == S(<<Opt(L("w/")), C({"\""}), Star(C({"!"} \cup CharRange(35, 126) \cup ObsText)), C({"\""})>>)
\* mailboxes (RFC 5322; comments nested five deep)
Wsp == C(OWS)
Fws == Plus(Wsp)
QPair5 == S(<<C({"\\"}), C(VChar \cup OWS)>>)
RECURSIVE Comment5(_)
Comment5(d) == LET t == C(CharRange(33, 39) \cup CharRange(42, 91) \cup CharRange(93, 126)) IN
               S(<<C({"("}), Star(S(<<Opt(Fws), IF d = 1 THEN A(<<t, QPair5>>) ELSE A(<<t, QPair5, Comment5(d - 1)>>)>>)), Opt(Fws), C({")"})>>)
Cfws == A(<<S(<<Plus(S(<<Opt(Fws), Comment5(5)>>)), Opt(Fws)>>), Fws>>)
In(g) == S(<<Opt(Cfws), g, Opt(Cfws)>>)
AText == C(AlNum \cup {"!", "#", "$", "%", "&", "'", "*", "+", "-", "/", "=", "?", "^", "_", "`", "{", "|", "}", "~"})
Quoted5 == In(S(<<C({"\""}), Star(S(<<Opt(Fws), A(<<C(CharRange(35, 91) \cup CharRange(93, 126) \cup {"!"}), QPair5>>)>>)), Opt(Fws), C({"\""})>>))
DotAtom == In(S(<<Plus(AText), Star(S(<<Dot, Plus(AText)>>))>>))
DomainLit == In(S(<<C({"["}), Star(S(<<Opt(Fws), C(CharRange(33, 90) \cup CharRange(94, 126))>>)), Opt(Fws), C({"]"})>>))
AddrSpec == S(<<A(<<DotAtom, Quoted5>>), C({"@"}), A(<<DotAtom, DomainLit>>)>>)
Phrase == Plus(A(<<In(Plus(AText)), Quoted5>>))
Mailbox == A(<<S(<<Opt(Phrase), In(S(<<C({"<"}), AddrSpec, C({">"})>>))>>), AddrSpec>>)
\* the rest
TransferParam == AuthParam
TransferCoding == S(<<Token, Star(Then(";", TransferParam))>>)
ReceivedBy == A(<<UriHost, Token>>)
Directive == S(<<Token, Opt(S(<<Eq, A(<<Token, QuotedString>>)>>))>>)
StsDir == S(<<Token, Opt(S(<<Ows, Eq, Ows, A(<<Token, QuotedString>>)>>))>>)
CspDir == S(<<Plus(C(AlNum \cup {"-"})), Star(S(<<Rws, Plus(C(VChar \ {",", ";"}))>>))>>)
LaxTrue == S(<<C({"t"}), C({"r"}), C({"u"}), C({"e"})>>)
Bws68 == C(AlNum \cup {"+", "/"})

Single == [
  access_control_allow_credentials |-> LaxTrue,
  access_control_allow_origin |-> A(<<Star1, UriRef>>),
  access_control_request_method |-> Token,
  authorization |-> Credentials, proxy_authorization |-> Credentials,
  content_disposition |-> S(<<Token, Star(Then(";", Parameter))>>),
  content_location |-> AbsOrPartial, referer |-> AbsOrPartial, location |-> UriRef,
  content_md5 |-> S(<<N(Bws68, 22), L("==")>>),
  content_type |-> MediaType,
  etag |-> EntityTag, if_range |-> A(<<EntityTag, HttpDate>>),
  from |-> Mailbox, host |-> UriHost,
  if_modified_since |-> HttpDate, if_unmodified_since |-> HttpDate,
  max_forwards |-> Digits, retry_after |-> A(<<HttpDate, Digits>>),
  strict_transport_security |-> S(<<Opt(StsDir), Star(S(<<Ows, C({";"}), Opt(S(<<Ows, StsDir>>))>>))>>),
  user_agent |-> Products,
  x_frame_options |-> A(<<L("deny"), L("sameorigin"), S(<<L("allow-from"), Rws, Scheme, L("://"), Host, Opt(S(<<Colon, Port>>))>>)>>)]
Csp == S(<<CspDir, Star(S(<<Ows, C({";"}), Opt(S(<<Ows, CspDir>>))>>))>>)
List == [
  accept |-> S(<<MediaRange, Opt(Weight)>>), accept_patch |-> MediaType, accept_post |-> MediaRange,
  accept_encoding |-> S(<<Token, Opt(Weight)>>), accept_language |-> S(<<LangRange, Opt(Weight)>>),
  accept_ranges |-> Token, access_control_allow_headers |-> Token, access_control_allow_methods |-> Token,
  access_control_expose_headers |-> Token, access_control_request_headers |-> Token,
  allow |-> Token, connection |-> Token, content_encoding |-> Token, trailer |-> Token, referrer_policy |-> Token, vary |-> Token,
  alt_svc |-> A(<<L("clear"), S(<<Token, Eq, QuotedString, Star(Then(";", Parameter))>>)>>),
  authentication_info |-> AuthParam, proxy_authentication_info |-> AuthParam,
  cache_control |-> Directive, pragma |-> Directive,
  clear_site_data |-> QuotedString, content_language |-> LanguageTag,
  content_security_policy |-> Csp, content_security_policy_report_only |-> Csp,
  expect |-> S(<<Token, Opt(S(<<Eq, A(<<Token, QuotedString>>), Parameters>>))>>),
  if_match |-> A(<<Star1, EntityTag>>), if_none_match |-> A(<<Star1, EntityTag>>),
  keep_alive |-> Parameter, link |-> LinkValue,
  proxy_authenticate |-> Credentials, www_authenticate |-> Credentials,
  server |-> Products, server_timing |-> S(<<Token, Parameters>>),
  te |-> A(<<L("trailers"), S(<<TransferCoding, Opt(Weight)>>)>>), transfer_encoding |-> TransferCoding,
  upgrade |-> Product,
  via |-> S(<<Opt(S(<<Token, Slash>>)), Token, Rws, ReceivedBy, Opt(S(<<Rws, Comment(10)>>))>>),
  warning |-> S(<<N(C(Digit), 3), C({" "}), ReceivedBy, C({" "}), QuotedString, Opt(S(<<L(" \""), HttpDate, C({"\""})>>))>>),
  x_content_type_options |-> L("nosniff")]

\* field names, with "_" for "-" above
RECURSIVE SwapFrom(_, _, _, _, _)
SwapFrom(s, k, x, y, acc) == IF k > Len(s) THEN acc ELSE SwapFrom(s, k + 1, x, y, acc \o (IF Ch(s, k) = x THEN y ELSE Ch(s, k)))
Under(n) == SwapFrom(n, 1, "-", "_", "")
IsSingle(n) == Under(n) \in DOMAIN Single
IsList(n) == Under(n) \in DOMAIN List
GrammarNames == {SwapFrom(x, 1, "_", "-", "") : x \in DOMAIN Single \cup DOMAIN List}
GrammarOf(n) == IF IsSingle(n) THEN Single[Under(n)] ELSE List[Under(n)]

\* how a line is split: in an entity-tag, unlike in a quoted-string, a backslash is like any other character
RECURSIVE TagEnd(_, _)
TagEnd(s, k) == IF k > Len(s) THEN 0 ELSE IF Ch(s, k) = "\"" THEN k + 1
                ELSE IF Ch(s, k) = "!" \/ Ch(s, k) \in CharRange(35, 126) \cup ObsText THEN TagEnd(s, k + 1) ELSE 0
RECURSIVE TagRun(_, _)
TagRun(s, k) == IF k > Len(s) \/ (k <= Len(s) /\ Ch(s, k) = ",") THEN k
  ELSE IF Ch(s, k) = "\"" THEN LET e == TagEnd(s, k + 1) IN IF e = 0 THEN k ELSE TagRun(s, e) ELSE TagRun(s, k + 1)
RECURSIVE TagSplit(_, _, _)
TagSplit(s, k, acc) == IF k > Len(s) THEN acc
  ELSE LET e == TagRun(s, k) v == Strip(SubSeq(s, k, e - 1)) IN
       IF e = k \/ (e <= Len(s) /\ Ch(s, e) # ",") THEN TagSplit(s, k + 1, acc)
       ELSE TagSplit(s, e, IF v = "" THEN acc ELSE Append(acc, v))
\* in Server and Via, a comma in a comment doesn't separate members either.  Comments nest to a depth of ten
RECURSIVE CommentEnd(_, _, _)
CommentEnd(s, k, d) ==      \* the index after a comment whose text goes on at k, with d levels open; or 0
  IF k > Len(s) THEN 0
  ELSE LET c == Ch(s, k) IN
       IF c = ")" THEN IF d = 1 THEN k + 1 ELSE CommentEnd(s, k + 1, d - 1)
       ELSE IF c = "(" THEN IF d = 10 THEN 0 ELSE CommentEnd(s, k + 1, d + 1)
       ELSE IF c = "\\" THEN IF k + 1 <= Len(s) /\ Ch(s, k + 1) \in QpChar THEN CommentEnd(s, k + 2, d) ELSE 0
       ELSE IF c \in CText THEN CommentEnd(s, k + 1, d) ELSE 0
RECURSIVE CommentRun(_, _)
CommentRun(s, k) ==
  IF k > Len(s) THEN k
  ELSE LET c == Ch(s, k) IN
       IF c = "," THEN k
       ELSE IF c = "\"" THEN LET e == QsEnd(s, k + 1) IN IF e = 0 THEN k ELSE CommentRun(s, e)
       ELSE IF c = "(" THEN LET e == CommentEnd(s, k + 1, 1) IN CommentRun(s, IF e = 0 THEN k + 1 ELSE e)
       ELSE CommentRun(s, k + 1)
RECURSIVE CommentSplit(_, _, _)
CommentSplit(s, k, acc) == IF k > Len(s) THEN acc
  ELSE LET e == CommentRun(s, k) v == Strip(SubSeq(s, k, e - 1)) IN
       IF e = k \/ (e <= Len(s) /\ Ch(s, e) # ",") THEN CommentSplit(s, k + 1, acc)
       ELSE CommentSplit(s, e, IF v = "" THEN acc ELSE Append(acc, v))
Commented == {"server", "via"}
PolicyLists == {"content-security-policy", "content-security-policy-report-only"}
SplitFor(n, s) == IF n \in PolicyLists THEN CommaSplit(s) ELSE IF n \in Commented THEN CommentSplit(s, 1, <<>>) ELSE IF n = "link" THEN LinkSplit(s, 1, <<>>) ELSE IF n \in {"if-match", "if-none-match"} THEN TagSplit(s, 1, <<>>) ELSE SplitList(s)
Challenges == {"www-authenticate", "proxy-authenticate"}
\* the members of a list field to be judged, each with its line.  A parameter after a challenge is part of that challenge
RECURSIVE JudgedFrom(_, _, _, _)
JudgedFrom(n, occ, k, acc) ==
  IF k > Len(occ) THEN acc
  ELSE LET q == SplitFor(n, occ[k][2])
           new == [j \in 1..Len(q) |-> <<occ[k][1], q[j]>>] IN
       JudgedFrom(n, occ, k + 1, acc \o new)
Judged(n, ls) == LET q == JudgedFrom(n, LinesOf(ls, n), 1, <<>>) IN
  IF n \notin Challenges THEN q
  ELSE LET keep == {k \in 1..Len(q) : k = 1 \/ ~FullMatch(AuthParam, q[k][2])} IN
       Cat([k \in 1..Len(q) |-> IF k \in keep THEN <<q[k]>> ELSE <<>>])

Bad(n) == "BAD_SYNTAX(" \o Entry(n).c \o ")"
Notes1(m, n, g) ==
  IF IsSingle(n) THEN One(~FullMatch(g, OneOf(m.headers, n)), NoteKey(Bad(n), "field-" \o n))
  ELSE LET q == Judged(n, m.headers) IN
       Cat([j \in 1..Len(q) |-> One(~FullMatch(g, q[j][2]), NoteKey(Bad(n), Off(q[j][1])))])
SyntaxNotes(m) ==
  Cat([k \in 1..Len(m.headers) |->
    LET n == Lower(m.headers[k][1]) IN
    IF ~(IsSingle(n) \/ IsList(n)) \/ Misplaced(n, m.kind) \/ \E j \in 1..(k - 1) : Lower(m.headers[j][1]) = n THEN <<>>
    ELSE Notes1(m, n, GrammarOf(n))])
=============================================================================
