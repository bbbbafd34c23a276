------------------------------ MODULE Conneg ------------------------------
(***************************************************************************)
(* Content negotiation: preferences of a request (Accept, Accept-Encoding, *)
(* Accept-Language), what a response says of itself (Content-Encoding,     *)
(* Content-Language, Vary, Allow) and of what it could take (Accept-Patch, *)
(* Accept-Post, Accept-Ranges).                                            *)
(***************************************************************************)
EXTENDS Framing

\* quality values
QOk(v) == v # "" /\ \/ Ch(v, 1) = "0" /\ (v = "0" \/ (Ch(v, 2) = "." /\ Len(v) <= 5 /\ AllIn(From(v, 3), Digit)))
                    \/ Ch(v, 1) = "1" /\ (v = "1" \/ (Ch(v, 2) = "." /\ Len(v) <= 5 /\ AllIn(From(v, 3), {"0"})))
QNum(v) == LET d == RTrimSet(IF Has(v, ".") THEN After(v, ".") ELSE "", {"0"}) IN "f" \o Ch(v, 1) \o "." \o (IF d = "" THEN "0" ELSE d)
Quality(d) == IF ~HasName(d, "q") THEN "None" ELSE IF QOk(ValueIn(d, "q")) THEN QNum(ValueIn(d, "q")) ELSE "None"
BadQuality(d) == HasName(d, "q") /\ ~QOk(ValueIn(d, "q"))
Without(d, n) == SelectSeq(d, LAMBDA p : p[1] # n)

\* Accept, Accept-Patch, Accept-Post: media types or ranges
AcceptText(s) == LET d == QParams(s).d IN "O{media_type:s" \o TypeOf(s) \o ",parameters:" \o DictText(Without(d, "q")) \o ",q:" \o Quality(d) \o "}"
RangeNotes(s, wild, bad) == One(~TypeUsable(TypeOf(s), wild), bad) \o TypeNameNotes(TypeOf(s), wild)
AcceptOne(s) == RangeNotes(s, TRUE, "ACCEPT_BAD_SYNTAX") \o QParams(s).notes
                \o One(BadQuality(QParams(s).d), "BAD_Q_VALUE(" \o TypeOf(s) \o ",None)")
AnyParams(s) == ParamsOf(After(s, ";"), {})
TypeText(s) == PairText(TypeOf(s), AnyParams(s).d)
PatchOne(s) == RangeNotes(s, FALSE, "ACCEPT_PATCH_BAD_SYNTAX") \o AnyParams(s).notes
PostOne(s) == RangeNotes(s, TRUE, "ACCEPT_POST_BAD_SYNTAX") \o AnyParams(s).notes

\* Accept-Language: nothing but a weight may follow a range
LanguageText(s) == "O{language:s" \o NameOf(s) \o ",q:" \o Quality(QParams(s).d) \o "}"
LanguageOne(s) == LET p == QParams(s) IN
  p.notes \o One(BadQuality(p.d), "BAD_Q_VALUE(None," \o NameOf(s) \o ")") \o One(Without(p.d, "q") # <<>>, "ACCEPT_LANGUAGE_BAD_SYNTAX")
EncodingOne(s) == QParams(s).notes

\* the units a response takes ranges in
UnitOne(s) == One(Lower(s) \notin {"bytes", "none"}, "UNKNOWN_RANGE")

\* Content-Encoding: is a coding one that the client takes?
Listed(n, ms) == \E k \in 1..Len(ms) : NameOf(ms[k][2]) = n
CodingWanted(n, ms) == IF Listed(n, ms) THEN Accepted(n, ms) ELSE Accepted("*", ms)
CeNotes(m) == IF ~AsksFor(m) THEN <<>>
  ELSE LET q == Members(m.headers, "content-encoding") ms == Members(m.related.headers, "accept-encoding") IN
       Cat([k \in 1..Len(q) |-> One(~CodingWanted(Lower(q[k][2]), ms), NoteKey("ENCODING_UNWANTED(" \o q[k][2] \o ")", Off(q[k][1])))])
\* Content-Language: each tag given more than once
Names(ms) == [k \in 1..Len(ms) |-> Lower(ms[k][2])]
DupNames(q) == {x \in SeqSet(q) : CountIn(q, x) > 1}
ClaNotes(m) == LET d == SetSeq(DupNames(Names(Members(m.headers, "content-language")))) IN
               [k \in 1..Len(d) |-> NoteKey("CONTENT_LANGUAGE_DUP(" \o d[k] \o ")", "field-content-language")]
\* Vary: a set of names
RECURSIVE DedupFrom(_, _, _)
DedupFrom(q, k, acc) == IF k > Len(q) THEN acc ELSE DedupFrom(q, k + 1, IF q[k] \in SeqSet(acc) THEN acc ELSE Append(acc, q[k]))
VaryNames(m) == DedupFrom(Names(Members(m.headers, "vary")), 1, <<>>)
VaryMany == 3
VaryNotes(m) == LET q == Names(Members(m.headers, "vary")) s == SeqSet(q) IN
  IF ~Present(m.headers, "vary") THEN <<>>
  ELSE At(One(Cardinality(s) < Len(q), "VARY_DUPLICATE") \o One("*" \in s, "VARY_ASTERISK") \o One(Cardinality(s) > VaryMany, "VARY_COMPLEX")
          \o One("user-agent" \in s, "VARY_USER_AGENT") \o One("host" \in s, "VARY_HOST") \o One("negotiate" \in s, "VARY_NEGOTIATE"), "field-vary")

LowIs(s) == "s" \o Lower(s)
ReqConneg == {"accept", "accept-encoding", "accept-language"}
RespConneg == {"vary", "allow", "accept-patch", "accept-post", "accept-ranges"}
BothConneg == {"content-encoding", "content-language"}
ConnegFields(m) == BothConneg \cup IF m.kind = "request" THEN ReqConneg ELSE RespConneg
ConnegParsed(m, f) ==
  LET q == Members(m.headers, f) IN
  CASE f = "accept" -> FrListText(q, AcceptText)
    [] f = "accept-encoding" -> FrListText(q, QText)
    [] f = "accept-language" -> FrListText(q, LanguageText)
    [] f = "vary" -> "[" \o Join([k \in 1..Len(VaryNames(m)) |-> "s" \o VaryNames(m)[k]], ",") \o "]"
    [] f = "allow" -> FrListText(q, FrAsIs)
    [] f \in {"accept-patch", "accept-post"} -> FrListText(q, TypeText)
    [] OTHER -> FrListText(q, LowIs)
Each(m, f, Op(_)) == IF f \notin ConnegFields(m) THEN <<>>
  ELSE LET q == Members(m.headers, f) IN Cat([k \in 1..Len(q) |-> At(Op(q[k][2]), Off(q[k][1]))])

ConnegVocab == ParamVocab \cup TypeVocab \cup {"ACCEPT_BAD_SYNTAX", "ACCEPT_PATCH_BAD_SYNTAX", "ACCEPT_POST_BAD_SYNTAX", "BAD_Q_VALUE", "ACCEPT_LANGUAGE_BAD_SYNTAX",
  "UNKNOWN_RANGE", "ENCODING_UNWANTED", "CONTENT_LANGUAGE_DUP", "VARY_DUPLICATE", "VARY_ASTERISK", "VARY_COMPLEX", "VARY_USER_AGENT", "VARY_HOST", "VARY_NEGOTIATE"}
ConnegNotes(m) ==
  Each(m, "accept", AcceptOne) \o Each(m, "accept-encoding", EncodingOne) \o Each(m, "accept-language", LanguageOne)
  \o Each(m, "accept-patch", PatchOne) \o Each(m, "accept-post", PostOne) \o Each(m, "accept-ranges", UnitOne)
  \o CeNotes(m) \o ClaNotes(m) \o (IF m.kind = "response" THEN VaryNotes(m) ELSE <<>>)
=============================================================================
