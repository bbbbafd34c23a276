------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* The fields that frame a message: Content-Length, Transfer-Encoding, TE, *)
(* Connection, Keep-Alive, Upgrade and Trailer, and how they agree.        *)
(***************************************************************************)
EXTENDS Params

\* Content-Length: the first line, if it is a decimal
ClText(m) == OneOf(m.headers, "content-length")
ClOk(m) == IsDigits(ClText(m)) /\ Len(ClText(m)) <= 4300
ClMost == "9223372036854775807"
ClParsed(m) == IF ClOk(m) THEN "i" \o Canon(ClText(m)) ELSE "None"
ClNotes(m) ==
  IF ~Present(m.headers, "content-length") THEN <<>>
  ELSE IF ~ClOk(m) THEN <<NoteKey("CL_BAD_SYNTAX", "field-content-length")>>
  ELSE One(NumLess(ClMost, ClText(m)), NoteKey("CL_TOO_LARGE", "field-content-length"))
       \o One(Present(m.headers, "transfer-encoding"), NoteKey("CL_AND_TE_PRESENT", "field-content-length"))

\* a member with parameters: its name, its parameters; star says which parameters have no extended form
NameOf(s) == Lower(Strip(Before(s, ";")))
StarNames(s) == {LET n == Lower(Scan(s)[k][1]) IN SubSeq(n, 1, Len(n) - 1) : k \in 1..Len(Scan(s))}
TcParams(s) == ParamsOf(After(s, ";"), StarNames(After(s, ";")))
QParams(s) == ParamsOf(After(s, ";"), {"q"})
PairText(n, d) == "(s" \o n \o "," \o DictText(d) \o ")"

\* is a preference for a name, with a weight other than zero, in a list?
ZeroWeight(v) == v = "0" \/ (Len(v) \in 2..5 /\ StartsWith(v, "0.") /\ AllIn(From(v, 3), {"0"}))
Weightless(s) == LET d == QParams(s).d IN HasName(d, "q") /\ ZeroWeight(ValueIn(d, "q"))
Accepted(n, ms) == \E k \in 1..Len(ms) : NameOf(ms[k][2]) = n /\ ~Weightless(ms[k][2])
AsksFor(m) == m.kind = "response" /\ HasF(m, "related") /\ m.related.kind = "request"

TcMembers(m) == Members(m.headers, "transfer-encoding")
TcNames(m) == {NameOf(TcMembers(m)[k][2]) : k \in 1..Len(TcMembers(m))}
TcUnwanted(m) == {n \in TcNames(m) \ {"chunked", "identity"} : ~AsksFor(m) \/ ~Accepted(n, Members(m.related.headers, "te"))}
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SetSeq(s \ {x})
TcNotes(m) ==
  LET q == TcMembers(m) un == SetSeq(TcUnwanted(m)) IN
  Cat([k \in 1..Len(q) |-> At(TcParams(q[k][2]).notes, Off(q[k][1])) \o One(TcParams(q[k][2]).d # <<>>, NoteKey("TRANSFER_CODING_PARAM", Off(q[k][1])))])
  \o [k \in 1..Len(un) |-> NoteKey("TRANSFER_CODING_UNWANTED(" \o un[k] \o ")", "field-transfer-encoding")]
  \o One("identity" \in TcNames(m), NoteKey("TRANSFER_CODING_IDENTITY", "field-transfer-encoding"))
TeNotes(m) == LET q == Members(m.headers, "te") IN Cat([k \in 1..Len(q) |-> At(QParams(q[k][2]).notes, Off(q[k][1]))])

\* what each field is taken to be
KaText(s) == "(s" \o Lower(Before(s, "=")) \o "," \o (IF Has(s, "=") THEN "s" \o Unquote(After(s, "=")) ELSE "None") \o ")"
FrListText(ms, Op(_)) == "[" \o Join([k \in 1..Len(ms) |-> Op(ms[k][2])], ",") \o "]"
FrAsIs(s) == "s" \o s
TcText(s) == PairText(NameOf(s), TcParams(s).d)
QText(s) == PairText(NameOf(s), QParams(s).d)
FramingFields == {"content-length", "transfer-encoding", "te", "connection", "keep-alive", "upgrade", "trailer"}
FramingParsed(m, f) ==
  LET q == Members(m.headers, f) IN
  CASE f = "content-length" -> ClParsed(m)
    [] f = "transfer-encoding" -> FrListText(q, TcText)
    [] f = "te" -> FrListText(q, QText)
    [] f = "keep-alive" -> FrListText(q, KaText)
    [] OTHER -> FrListText(q, FrAsIs)

FramingVocab == ParamVocab \cup {"CL_BAD_SYNTAX", "CL_TOO_LARGE", "CL_AND_TE_PRESENT", "TRANSFER_CODING_PARAM", "TRANSFER_CODING_UNWANTED", "TRANSFER_CODING_IDENTITY"}
FramingNotes(m) == ClNotes(m) \o TcNotes(m) \o TeNotes(m)
=============================================================================
