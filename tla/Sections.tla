------------------------------ MODULE Sections ------------------------------
(***************************************************************************)
(* Field sections: what is recorded of each line (C04), how lines of one   *)
(* field combine (C05), and which fields may occur where (C06).            *)
(***************************************************************************)
EXTENDS Fields

Table == JsonDeserialize("fields.json")
Known(name) == Lower(name) \in DOMAIN Table
Entry(name) == Table[Lower(name)]
Ascii == {Chr[k] : k \in 1..128}
RECURSIVE AsciiFrom(_, _, _)
AsciiFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE AsciiFrom(s, i + 1, IF Ch(s, i) \in Ascii THEN acc \o Ch(s, i) ELSE acc)
AsciiOnly(s) == IF AllIn(s, Ascii) THEN s ELSE AsciiFrom(s, 1, "")
ValidName(name) == name # "" /\ AllIn(name, TChar)

\* what is recorded of a section: names lose their non-ASCII bytes, values are read as ISO-8859-1
Text(ls) == [k \in 1..Len(ls) |-> <<AsciiOnly(ls[k][1]), ls[k][2]>>]
LineSize(l) == Len(l[1]) + Len(l[2])
RECURSIVE SizeFrom(_, _, _)
SizeFrom(ls, i, acc) == IF i > Len(ls) THEN acc ELSE SizeFrom(ls, i + 1, acc + LineSize(ls[i]))
SectionSize(ls) == SizeFrom(ls, 1, 0)
MaxLine == 8192
MaxSection == 32768

\* a line that is not considered further: in the wrong kind of message, or not a field name
Misplaced(name, kind) == Known(name) /\ ~(IF kind = "request" THEN Entry(name).req ELSE Entry(name).resp)
Ignored(name, kind) == Misplaced(name, kind) \/ ~ValidName(name)

SectionVocab == {"FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE", "FIELD_SECTION_TOO_LARGE"}
SectionNotes(ls, kind) ==
  LET tx == Text(ls) IN
  Cat([k \in 1..Len(ls) |->
       One(~AllIn(ls[k][1], Ascii), NoteKey("FIELD_NAME_ENCODING", Off(k - 1)))
       \o One(~AllIn(ls[k][2], Ascii), NoteKey("FIELD_VALUE_ENCODING", Off(k - 1)))
       \o One(LineSize(ls[k]) > MaxLine /\ ~Ignored(tx[k][1], kind), NoteKey("FIELD_TOO_LARGE", Off(k - 1)))])
  \o One(SectionSize(ls) > MaxSection, NoteKey("FIELD_SECTION_TOO_LARGE", "field-block"))

PlaceVocab == {"RESPONSE_HDR_IN_REQUEST", "REQUEST_HDR_IN_RESPONSE", "FIELD_NAME_BAD_SYNTAX", "FIELD_DEPRECATED", "UNNECESSARY_HEADER"}
PlaceNotes(ls, kind) ==
  LET tx == Text(ls) IN
  Cat([k \in 1..Len(ls) |->
       LET n == tx[k][1] o == Off(k - 1) IN
       IF Misplaced(n, kind)
       THEN <<NoteKey(IF kind = "request" THEN "RESPONSE_HDR_IN_REQUEST" ELSE "REQUEST_HDR_IN_RESPONSE", o)>>
       ELSE IF ~ValidName(n) THEN <<NoteKey("FIELD_NAME_BAD_SYNTAX", o)>>
       ELSE IF ~Known(n) THEN <<>>
       ELSE One(Entry(n).dep, NoteKey("FIELD_DEPRECATED", o))
            \o (IF Entry(n).unn THEN [j \in 1..Len(SplitList(tx[k][2])) |-> NoteKey("UNNECESSARY_HEADER", o)] ELSE <<>>)])

\* singletons: the first line counts; more than one usable line is reported once
Kind(name) == IF Known(name) THEN Entry(name).kind ELSE "unknown"
UsedNames(ls, kind) == {Lower(Text(ls)[k][1]) : k \in {j \in 1..Len(ls) : ~Ignored(Text(ls)[j][1], kind)}}
RepeatNotes(ls, kind) ==
  LET names == {n \in UsedNames(ls, kind) : Kind(n) = "single" /\ Len(LinesOf(Text(ls), n)) > 1}
      RECURSIVE SetToSeq(_)
      SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SetToSeq(s \ {x}) IN
  [k \in 1..Len(SetToSeq(names)) |-> NoteKey("SINGLE_HEADER_REPEAT", "field-" \o (IF Entry(SetToSeq(names)[k]).c = "" THEN SetToSeq(names)[k] ELSE Lower(Entry(SetToSeq(names)[k]).c)))]

\* list fields whose parsed value is simply their members, as they are, or lower-cased
AsIs == {"allow", "connection", "upgrade", "trailer", "access-control-expose-headers", "access-control-allow-methods", "x-cache"}
Lowered == {"content-encoding", "content-language", "accept-ranges", "access-control-allow-headers", "pragma"}
ListText(q) == "[" \o Join([k \in 1..Len(q) |-> "s" \o q[k]], ",") \o "]"
PlainParsed(ls, name) ==
  LET m == Members(Text(ls), name) IN
  ListText([k \in 1..Len(m) |-> IF name \in Lowered THEN Lower(m[k][2]) ELSE m[k][2]])

\* combining: fields defined as lists have the value of their lines joined by commas; single-valued ones
\* have the value of their first line; others, and unknown ones, are left alone
Combines(name) == Kind(name) \in {"list", "sf", "json"}
RECURSIVE CombineFrom(_, _, _, _)
CombineFrom(ls, i, done, acc) ==
  IF i > Len(ls) THEN acc
  ELSE LET n == Lower(ls[i][1])
           vals == [k \in 1..Len(LinesOf(ls, n)) |-> LinesOf(ls, n)[k][2]] IN
       IF ~Known(n) \/ Kind(n) = "broken" THEN CombineFrom(ls, i + 1, done, Append(acc, ls[i]))
       ELSE IF n \in done THEN CombineFrom(ls, i + 1, done, acc)
       ELSE CombineFrom(ls, i + 1, done \cup {n}, Append(acc, <<n, IF Combines(n) THEN Join(vals, ", ") ELSE ls[i][2]>>))
Combine(ls) == CombineFrom(ls, 1, {}, <<>>)
\* joining must not make a quoted string out of two halves
Joinable(ls) == \A n \in {Lower(ls[k][1]) : k \in 1..Len(ls)} :
                  Kind(n) # "list" \/ LET o == LinesOf(ls, n) IN
                                      SplitList(Join([k \in 1..Len(o) |-> o[k][2]], ", ")) = Cat([k \in 1..Len(o) |-> SplitList(o[k][2])])
=============================================================================
