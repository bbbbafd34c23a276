------------------------------ MODULE Ranges ------------------------------
(***************************************************************************)
(* Range and Content-Range: units and positions, and what a partial        *)
(* response says of the request and of itself.                             *)
(***************************************************************************)
EXTENDS Status, Conneg

Pos(t) == IF t = "" THEN "None" ELSE "i" \o Canon(t)
PosOk(t) == t = "" \/ IsDigits(t)
\* a member first-last, either of which may be missing
FirstOf(t) == Before(t, "-")
LastOf(t) == After(t, "-")
SpecOk(t) == Has(t, "-") /\ t # "-" /\ PosOk(FirstOf(t)) /\ PosOk(LastOf(t))
Reversed(a, b) == a # "" /\ b # "" /\ NumLess(b, a)
RangeSpecs(s) == SelectSeq([k \in 1..Len(Split(After(s, "="), ",")) |-> Strip(Split(After(s, "="), ",")[k])], LAMBDA x : x # "")
RangeVal(m) == OneOf(m.headers, "range")
\* those that come before the first malformed one
RECURSIVE GoodFrom(_, _)
GoodFrom(q, k) == IF k > Len(q) THEN k - 1 ELSE IF SpecOk(q[k]) THEN GoodFrom(q, k + 1) ELSE k - 1
RangeOk(s) == Has(s, "=") /\ RangeSpecs(s) # <<>> /\ GoodFrom(RangeSpecs(s), 1) = Len(RangeSpecs(s))
RNotes(m) ==
  IF m.kind # "request" \/ ~Present(m.headers, "range") THEN <<>>
  ELSE LET s == RangeVal(m) q == RangeSpecs(s) IN
       IF ~Has(s, "=") THEN <<"RANGE_BAD_SYNTAX@field-range">>
       ELSE Cat([k \in 1..GoodFrom(q, 1) |-> One(Reversed(FirstOf(q[k]), LastOf(q[k])), "RANGE_INVALID@field-range")]) \o One(~RangeOk(s), "RANGE_BAD_SYNTAX@field-range")
SpecText(t) == "(" \o Pos(FirstOf(t)) \o "," \o Pos(LastOf(t)) \o ")"
RangeParsed(m) == LET s == RangeVal(m) q == RangeSpecs(s) IN
  IF ~RangeOk(s) THEN "None" ELSE "O{ranges:[" \o Join([k \in 1..Len(q) |-> SpecText(q[k])], ",") \o "],unit:s" \o Before(s, "=") \o "}"

\* Content-Range: unit SP (first-last | *) / (length | *)
CrVal(m) == OneOf(m.headers, "content-range")
CrUnit(s) == Before(s, " ")
CrSpec(s) == Before(After(s, " "), "/")
CrLen(s) == After(After(s, " "), "/")
StatusIs(m, q) == CodeOfTop(m.top) \in q
CrWrong(s) ==     \* why it can't be read
  IF ~Has(s, " ") THEN IF Has(s, "/") THEN "CONTENT_RANGE_MISSING_UNIT" ELSE "CONTENT_RANGE_MISSING_SLASH"
  ELSE IF ~Has(After(s, " "), "/") THEN "CONTENT_RANGE_MISSING_SLASH"
  ELSE IF CrSpec(s) = "*" /\ CrLen(s) = "*" THEN "CONTENT_RANGE_INVALID_ASTERISK"
  ELSE IF CrLen(s) # "*" /\ ~IsDigits(CrLen(s)) THEN "RANGE_INVALID_INTEGER"
  ELSE IF CrSpec(s) = "*" THEN ""
  ELSE IF ~Has(CrSpec(s), "-") THEN "RANGE_MISSING_HYPHEN"
  ELSE IF ~IsDigits(FirstOf(CrSpec(s))) \/ ~IsDigits(LastOf(CrSpec(s))) THEN "RANGE_INVALID_INTEGER" ELSE ""
CrShaped(s) == Has(s, " ") /\ Has(After(s, " "), "/")
On1(f, q) == [k \in 1..Len(q) |-> q[k] \o "@" \o f]
CrNotes(m) ==
  IF m.kind # "response" \/ ~Present(m.headers, "content-range") THEN <<>>
  ELSE LET s == CrVal(m) w == CrWrong(s) a == FirstOf(CrSpec(s)) b == LastOf(CrSpec(s)) IN
       On1("field-content-range",
           One(~StatusIs(m, {"206", "416"}), "CONTENT_RANGE_MEANINGLESS")
           \o One(w # "", w)
           \o One(CrShaped(s) /\ CrLen(s) = "*" /\ CrSpec(s) # "*", "CONTENT_RANGE_UNKNOWN_LENGTH")
           \o One(w = "" /\ CrSpec(s) = "*" /\ StatusIs(m, {"206"}), "CONTENT_RANGE_UNSATISFIED_BAD_SC")
           \o One(w = "" /\ CrSpec(s) # "*" /\ NumLess(b, a), "RANGE_INVALID")
           \o One(w = "" /\ CrSpec(s) # "*" /\ CrLen(s) # "*" /\ ~NumLess(b, CrLen(s)), "RANGE_INVALID"))
CrParsed(m) == LET s == CrVal(m) IN
  IF CrWrong(s) # "" THEN "None"
  ELSE "O{complete_length:" \o (IF CrLen(s) = "*" THEN "None" ELSE Pos(CrLen(s)))
       \o ",first_byte_pos:" \o (IF CrSpec(s) = "*" THEN "None" ELSE Pos(FirstOf(CrSpec(s))))
       \o ",last_byte_pos:" \o (IF CrSpec(s) = "*" THEN "None" ELSE Pos(LastOf(CrSpec(s)))) \o ",unit:s" \o CrUnit(s) \o "}"

PartialVocab == {"PARTIAL_NOT_REQUESTED", "PARTIAL_WITHOUT_RANGE", "STATUS_416_WITHOUT_RANGE"}
PartialNotes(m) == IF m.kind = "response" /\ StatusIs(m, {"206", "416"}) THEN CodeNotes(CodeOfTop(m.top), m) ELSE <<>>
UnitNotes(m) == Each(m, "accept-ranges", UnitOne)
RangesVocab == PartialVocab \cup {"RANGE_BAD_SYNTAX", "RANGE_INVALID", "RANGE_INVALID_INTEGER", "RANGE_MISSING_HYPHEN", "CONTENT_RANGE_MEANINGLESS", "CONTENT_RANGE_MISSING_UNIT",
  "CONTENT_RANGE_MISSING_SLASH", "CONTENT_RANGE_INVALID_ASTERISK", "CONTENT_RANGE_UNKNOWN_LENGTH", "CONTENT_RANGE_UNSATISFIED_BAD_SC", "UNKNOWN_RANGE"}
RangesNotes(m) == RNotes(m) \o CrNotes(m) \o PartialNotes(m) \o UnitNotes(m)
RangesParsed(m, f) == CASE f = "range" -> RangeParsed(m) [] f = "content-range" -> CrParsed(m) [] OTHER -> ConnegParsed(m, f)
RangesFields(m) == IF m.kind = "request" THEN {"range"} ELSE {"content-range", "accept-ranges"}
=============================================================================
