------------------------------ MODULE UriRules ------------------------------
(***************************************************************************)
(* URI-valued data: the request's IRI and its URI form (RFC 3987 with IDNA *)
(* 2003 for the host), Location, Content-Location, Referer, Host and Link. *)
(***************************************************************************)
EXTENDS Uri, Params

-----------------------------------------------------------------------------
\* Punycode (RFC 3492) of a label given as code points
Adapt(delta, n, first) ==
  LET RECURSIVE Reduce(_, _)
      Reduce(d, k) == IF d > 455 THEN Reduce(d \div 35, k + 36) ELSE k + (36 * d) \div (d + 38)
      d0 == IF first THEN delta \div 700 ELSE delta \div 2
  IN Reduce(d0 + (d0 \div n), 0)
Base36 == "abcdefghijklmnopqrstuvwxyz0123456789"
RECURSIVE VarInt(_, _, _, _)
VarInt(q, k, bias, acc) == LET t == IF k <= bias THEN 1 ELSE IF k >= bias + 26 THEN 26 ELSE k - bias IN
  IF q < t THEN acc \o Ch(Base36, q + 1)
  ELSE VarInt((q - t) \div (36 - t), k + 36, bias, acc \o Ch(Base36, t + ((q - t) % (36 - t)) + 1))
SmallestFrom(q, n) == LET X == {q[k] : k \in 1..Len(q)} \cap {x \in SeqSet(q) : x >= n} IN CHOOSE x \in X : \A y \in X : x <= y
RECURSIVE PunyStep(_, _, _, _, _, _, _), PunyRun(_, _, _)
\* one pass over the label for code point m: r = [delta, bias, h, out]
PunyRun(q, k, r) ==
  IF k > Len(q) THEN r
  ELSE IF q[k] < r.m THEN PunyRun(q, k + 1, [r EXCEPT !.delta = @ + 1])
  ELSE IF q[k] > r.m THEN PunyRun(q, k + 1, r)
  ELSE PunyRun(q, k + 1, [r EXCEPT !.out = @ \o VarInt(r.delta, 36, r.bias, ""), !.bias = Adapt(r.delta, r.h + 1, r.h = r.b), !.delta = 0, !.h = @ + 1])
PunyStep(q, n, delta, bias, h, b, out) ==
  IF h >= Len(q) THEN out
  ELSE LET m == SmallestFrom(q, n)
           r == PunyRun(q, 1, [delta |-> delta + (m - n) * (h + 1), bias |-> bias, h |-> h, out |-> out, m |-> m, b |-> b])
       IN PunyStep(q, m + 1, r.delta + 1, r.bias, r.h, b, r.out)
Punycode(q) == LET basic == SelectSeq(q, LAMBDA c : c < 128) b == Len(basic) IN
               PunyStep(q, 128, 0, 72, b, b, TextOf(basic) \o (IF b > 0 THEN "-" ELSE ""))
\* nameprep, for the scripts used here: Latin-1, Greek and Cyrillic capitals, sharp s
RECURSIVE PrepFrom(_, _, _)
PrepFrom(q, k, acc) == IF k > Len(q) THEN acc
  ELSE LET c == q[k] IN PrepFrom(q, k + 1, acc \o (
    IF c \in 65..90 \/ c \in (192..222) \ {215} \/ c \in (913..939) \ {930} \/ c \in 1040..1071 THEN <<c + 32>>
    ELSE IF c \in 1024..1039 THEN <<c + 80>> ELSE IF c = 223 THEN <<115, 115>> ELSE <<c>>))
LabelStops == {46, 12290, 65294, 65377}
RECURSIVE LabelsFrom(_, _, _, _)
LabelsFrom(q, b, k, acc) == IF k > Len(q) THEN Append(acc, SubSeq(q, b, Len(q)))
  ELSE IF q[k] \in LabelStops THEN LabelsFrom(q, k + 1, k + 1, Append(acc, SubSeq(q, b, k - 1))) ELSE LabelsFrom(q, b, k + 1, acc)
AsciiPts(q) == \A k \in 1..Len(q) : q[k] < 128
AceLabel(q) == LET p == PrepFrom(q, 1, <<>>) IN IF AsciiPts(q) THEN TextOf(q) ELSE IF AsciiPts(p) THEN TextOf(p) ELSE "xn--" \o Punycode(p)
HasAce(q) == Len(q) >= 4 /\ SubSeq(q, 1, 4) = <<120, 110, 45, 45>>
LabelOk(q) == 65533 \notin SeqSet(q) /\ LET p == PrepFrom(q, 1, <<>>) IN Len(AceLabel(q)) \in 1..63 /\ (AsciiPts(q) \/ AsciiPts(p) \/ ~HasAce(p))
\* a host's IDNA form, of its UTF-8 bytes; a last empty label is kept
HostLabels(h) == LET q == LabelsFrom(Decode(Bytes(h)), 1, 1, <<>>) IN IF Len(q) > 1 /\ q[Len(q)] = <<>> THEN [ls |-> SubSeq(q, 1, Len(q) - 1), dot |-> "."] ELSE [ls |-> q, dot |-> ""]
IsAscii(s) == \A k \in 1..Len(s) : Code[Ch(s, k)] < 128
HostAce(h) == LET r == HostLabels(h) IN Join([k \in 1..Len(r.ls) |-> AceLabel(r.ls[k])], ".") \o r.dot
HostOk(h) == LET r == HostLabels(h) IN \A k \in 1..Len(r.ls) : LabelOk(r.ls[k])

-----------------------------------------------------------------------------
\* the URI form of an IRI (UTF-8 bytes as text).  Components are told apart as in RFC 3986, appendix B.
IriScheme(s) == LET k == Find(s, {":", "/", "?", "#"}) IN k > 1 /\ Ch(s, k) = ":"
Rest(s) == IF IriScheme(s) THEN After(s, ":") ELSE s
RestFrag(s) == LET r == Rest(s) IN IF Has(r, "#") THEN <<TRUE, After(r, "#")>> ELSE Absent
RestQuery(s) == LET r == Before(Rest(s), "#") IN IF Has(r, "?") THEN <<TRUE, After(r, "?")>> ELSE Absent
RestNet(s) == LET r == Before(Before(Rest(s), "#"), "?") k == Find(From(r, 3), {"/"}) IN
              IF ~StartsWith(r, "//") THEN [auth |-> Absent, path |-> r]
              ELSE IF k = 0 THEN [auth |-> <<TRUE, From(r, 3)>>, path |-> ""]
              ELSE [auth |-> <<TRUE, SubSeq(r, 3, k + 1)>>, path |-> From(r, k + 2)]
PathSafe == Unreserved \cup SubDelims \cup {":", "@", "%", "/"}
UserSafe == PathSafe \ {"/"}
QuerySafe == PathSafe \cup {"?"}
UserPart(a) == IF Has(a, "@") THEN LET h == AfterLast(a, "@") IN SubSeq(a, 1, Len(a) - Len(h) - 1) ELSE ""
HostPart(a) == AfterLast(a, "@")
NeedsIdna(hp) == ~IsAscii(hp) /\ ~StartsWith(hp, "[")
\* with IDNA only the host changes: what follows its first colon stays
HostUri(hp) == IF NeedsIdna(hp) THEN HostAce(Before(hp, ":")) \o (IF Has(hp, ":") THEN ":" \o After(hp, ":") ELSE "") ELSE hp
Convertible(s) == LET a == RestNet(s).auth IN ~a[1] \/ ~NeedsIdna(HostPart(a[2])) \/
                  Before(HostPart(a[2]), ":") = "" \/ HostOk(Before(HostPart(a[2]), ":"))
NoFrag(s) == (IF IriScheme(s) THEN Before(s, ":") \o ":" ELSE "")
  \o (LET a == RestNet(s).auth IN IF ~a[1] THEN "" ELSE "//" \o (IF Has(a[2], "@") THEN Quote(UserPart(a[2]), UserSafe) \o "@" ELSE "") \o HostUri(HostPart(a[2])))
  \o Quote(RestNet(s).path, PathSafe) \o (IF RestQuery(s)[1] THEN "?" \o Quote(RestQuery(s)[2], QuerySafe) ELSE "")
FullUri(s) == NoFrag(s) \o (IF RestFrag(s)[1] THEN "#" \o Quote(RestFrag(s)[2], QuerySafe) ELSE "")
\* what is stored
StoredUri(s) == IF Convertible(s) THEN NoFrag(s) ELSE Before(s, "#")
UriSeen(s) == LET u == StoredUri(s) IN IF IsAscii(u) THEN "s" \o u ELSE "s" \o Seen(Decode(Bytes(u)))
MaxUri == 8000
\* bytes that aren't UTF-8 count as U+FFFD
Iri(m) == TextOf(Encode(Decode(Bytes(m.top[2]))))
\* m.pad = <<u, n>>: the IRI ends with n copies of u
PadLen(m) == IF ~HasF(m, "pad") \/ RestFrag(Iri(m))[1] THEN 0 ELSE m.pad[2] * Len(Quote(m.pad[1], PathSafe))
UriLen(m) == Len(StoredUri(Iri(m))) + PadLen(m)
UriVocab == {"URI_BAD_SYNTAX", "URI_TOO_LONG"}
RequestUriNotes(m) ==
  LET s == Iri(m) IN
  One(~Convertible(s) \/ ~IsUri(FullUri(s)), NoteKey("URI_BAD_SYNTAX", "uri")) \o One(UriLen(m) > MaxUri, NoteKey("URI_TOO_LONG", "uri"))

-----------------------------------------------------------------------------
\* fields that hold one URI: judged by their first line
LocationStatus == {"201", "300", "301", "302", "303", "305", "307", "308"}
SyntaxOne(ls, name, g, canonical) == One(Present(ls, name) /\ ~FullMatch(g, OneOf(ls, name)), NoteKey("BAD_SYNTAX(" \o canonical \o ")", "field-" \o name))
UriHost == S(<<Host, Opt(S(<<Colon, Port>>))>>)
AbsOrPartial == A(<<AbsoluteUri, PartialUri>>)
Loc(m) == OneOf(m.headers, "location")
LocationNotes(m) == IF ~Present(m.headers, "location") THEN <<>>
  ELSE One(~(IsDigits(m.top[2]) /\ Canon(m.top[2]) \in LocationStatus), NoteKey("LOCATION_UNDEFINED", "field-location"))
       \o One(~IsUri(Loc(m)), NoteKey("LOCATION_NOT_ABSOLUTE", "field-location"))
BaseOf(m) == IF HasF(m, "base_uri") THEN m.base_uri ELSE ""
\* origins: scheme, host, port, the default port counting as its number.  Not usable: a bad authority
DefaultPort(s) == IF s \in {"http", "ws"} THEN "80" ELSE IF s \in {"https", "wss"} THEN "443" ELSE ""
PortNum(p, s) == IF p = "" THEN DefaultPort(s) ELSE Canon(p)
OriginOf(u) == LET p == Parts(u) h == HostPort(p.authority[2]) IN
               <<p.scheme[2], IF p.authority[1] THEN h.host ELSE "", IF p.authority[1] THEN PortNum(h.port, p.scheme[2]) ELSE DefaultPort(p.scheme[2])>>
PortUsable(u) == LET p == Parts(u) IN p.authority[1] => LET h == HostPort(p.authority[2]) IN
                 (AnyIn(p.authority[2], {"[", "]"}) => FullMatch(IPLiteral, h.host)) /\ AllIn(h.port, Digit) /\ (h.port = "" \/ ~NumLess("65535", h.port))
Secure(u) == Parts(u).scheme[2] \in {"https", "wss"}
Insecure(u) == Parts(u).scheme[2] \in {"http", "ws"}
Ref(m) == OneOf(m.headers, "referer")
RefererNotes(m) ==
  LET u == StoredUri(Iri(m)) r == Ref(m) IN
  IF ~Present(m.headers, "referer") \/ r = "" \/ u = "" \/ ~PortUsable(r) \/ ~PortUsable(u) \/ ~Secure(r) THEN <<>>
  ELSE One(Insecure(u), NoteKey("REFERER_SECURE_TO_INSECURE", "field-referer"))
       \o One(OriginOf(r) # OriginOf(u), NoteKey("REFERER_SECURE_TO_DIFFERENT_ORIGIN", "field-referer"))

-----------------------------------------------------------------------------
\* Link (RFC 8288): #( "<" URI-Reference ">" *( ";" parameter ) ).  In "<...>" neither comma nor semicolon separates.
LinkParam == S(<<Token, Opt(S(<<WS0, C({"="}), WS0, A(<<Token, QuotedString>>)>>))>>)
LinkValue == S(<<C({"<"}), UriRef, C({">"}), Star(S(<<WS0, C({";"}), WS0, LinkParam>>))>>)
RECURSIVE LinkRun(_, _)
LinkRun(s, k) == IF k > Len(s) THEN k
  ELSE LET c == Ch(s, k) e == IF c = "<" THEN FindFrom(s, k + 1, {">"}) ELSE 0 IN
       IF c = "," THEN k
       ELSE IF e # 0 THEN LinkRun(s, e + 1)
       ELSE IF c = "\"" THEN LET z == QsEnd(s, k + 1) IN IF z = 0 THEN k ELSE LinkRun(s, z)
       ELSE LinkRun(s, k + 1)
RECURSIVE LinkSplit(_, _, _)
LinkSplit(s, k, acc) == IF k > Len(s) THEN acc
  ELSE LET e == LinkRun(s, k) v == Strip(SubSeq(s, k, e - 1)) IN
       IF e = k \/ (e <= Len(s) /\ Ch(s, e) # ",") THEN LinkSplit(s, k + 1, acc)
       ELSE LinkSplit(s, e, IF v = "" THEN acc ELSE Append(acc, v))
RECURSIVE LinksFrom(_, _, _)
LinksFrom(occ, k, acc) == IF k > Len(occ) THEN acc
  ELSE LET q == LinkSplit(occ[k][2], 1, <<>>) IN LinksFrom(occ, k + 1, acc \o [j \in 1..Len(q) |-> <<occ[k][1], q[j]>>])
LinkMembers(ls) == LinksFrom(LinesOf(ls, "link"), 1, <<>>)
\* a member: its target and parameters
TargetEnd(v) == LET e == IF StartsWith(v, "<") THEN Find(v, {">"}) ELSE 0 k == FindFrom(v, e + 1, {";"}) IN IF k = 0 THEN Len(v) + 1 ELSE k
Target(v) == LET x == Strip(SubSeq(v, 1, TargetEnd(v) - 1)) IN IF Len(x) < 2 THEN "" ELSE SubSeq(x, 2, Len(x) - 1)
LinkParams(v) == ParamsOf(From(v, TargetEnd(v)), {"rel", "rev", "anchor", "hreflang", "type", "media"})
Hints == <<"preload", "preconnect", "dns-prefetch">>
HintSet == SeqSet(Hints)
MemberNotes(k, v) ==
  LET p == LinkParams(v) d == p.d has(n) == HasName(d, n) /\ ValueIn(d, n) # "" IN
  At(p.notes \o One(HasName(d, "rev"), "LINK_REV")
     \o One(has("anchor") /\ ~FullMatch(UriRef, Strip(ValueIn(d, "anchor"))), "LINK_BAD_ANCHOR")
     \o One(has("type") /\ ~FullMatch(MediaType, Strip(ValueIn(d, "type"))), "LINK_BAD_TYPE"), Off(k))
  \o (IF FullMatch(LinkValue, v) THEN <<>>
      ELSE IF Ends(LinkValue, v, {1}) # {} THEN <<NoteKey("BAD_SYNTAX_DETAILED(Link)", Off(k))>> ELSE <<NoteKey("BAD_SYNTAX(Link)", Off(k))>>)
Rels(v) == LET d == LinkParams(v).d IN IF HasName(d, "rel") THEN Words(Lower(ValueIn(d, "rel"))) ELSE <<>>
HintOk(base, v) == SchemeOf(base, Target(v)) \in {"", "http", "https"}
Hinting(v) == SelectSeq(Rels(v), LAMBDA r : r \in HintSet)
LinkNotes(m) ==
  LET ms == LinkMembers(m.headers)
      bad(k) == IF HintOk(BaseOf(m), ms[k][2]) THEN <<>> ELSE [j \in 1..Len(Hinting(ms[k][2])) |-> NoteKey("LINK_BAD_HINT_TARGET", "field-link")]
  IN Cat([k \in 1..Len(ms) |-> MemberNotes(ms[k][1], ms[k][2])]) \o Cat([k \in 1..Len(ms) |-> bad(k)])
     \o One(\E k \in 1..Len(ms) : Hinting(ms[k][2]) # <<>> /\ HintOk(BaseOf(m), ms[k][2]), NoteKey("LINK_RESOURCE_HINTS", "field-link"))
HintsText(m) == LET ms == LinkMembers(m.headers) IN
  Join(SelectSeq(Hints, LAMBDA h : \E k \in 1..Len(ms) : HintOk(BaseOf(m), ms[k][2]) /\ h \in SeqSet(Rels(ms[k][2]))), ", ")
LinkValueText(m) == LET ms == LinkMembers(m.headers) IN
  "[" \o Join([k \in 1..Len(ms) |-> "(s" \o Target(ms[k][2]) \o "," \o DictText(LinkParams(ms[k][2]).d) \o ")"], ",") \o "]"

-----------------------------------------------------------------------------
UriFieldVocab == {"LOCATION_UNDEFINED", "LOCATION_NOT_ABSOLUTE", "REFERER_SECURE_TO_INSECURE", "REFERER_SECURE_TO_DIFFERENT_ORIGIN",
  "LINK_REV", "LINK_BAD_ANCHOR", "LINK_BAD_TYPE", "LINK_BAD_HINT_TARGET", "LINK_RESOURCE_HINTS"} \cup ParamVocab \cup UriVocab
UriSyntaxNames == {"Location", "Content-Location", "Referer", "Host", "Link"}
UriNotes(m) ==
  LET h == m.headers IN
  (IF m.kind = "request" THEN RequestUriNotes(m) \o RefererNotes(m) \o SyntaxOne(h, "referer", AbsOrPartial, "Referer") \o SyntaxOne(h, "host", UriHost, "Host")
   ELSE LocationNotes(m) \o SyntaxOne(h, "location", UriRef, "Location") \o SyntaxOne(h, "content-location", AbsOrPartial, "Content-Location"))
  \o LinkNotes(m)
=============================================================================
