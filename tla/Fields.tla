------------------------------ MODULE Fields ------------------------------
(***************************************************************************)
(* Field sections: lines, list splitting, quoted strings, parameters,      *)
(* integers.  A section is a sequence of <<name, value>> pairs.            *)
(***************************************************************************)
EXTENDS Abnf, Obs

\* occurrences of a field in a section: <<0-based line number, value>>
RECURSIVE LinesFrom(_, _, _, _)
LinesFrom(ls, name, i, acc) ==
  IF i > Len(ls) THEN acc
  ELSE LinesFrom(ls, name, i + 1,
                 IF Lower(ls[i][1]) = name THEN Append(acc, <<i - 1, ls[i][2]>>) ELSE acc)
LinesOf(ls, name) == LinesFrom(ls, name, 1, <<>>)
Present(ls, name) == \E i \in 1..Len(ls) : Lower(ls[i][1]) = name

OneOf(ls, name) == Strip(LinesOf(ls, name)[1][2])   \* a single-valued field is its first line
\* quoted-string starting at i (which holds DQUOTE): index after its end, or 0
QdText == {"\t", " ", "!"} \cup CharRange(35, 91) \cup CharRange(93, 126) \cup ObsText
QpChar == {"\t", " "} \cup VChar \cup ObsText
RECURSIVE QsEnd(_, _)
QsEnd(s, i) ==
  IF i > Len(s) THEN 0
  ELSE LET c == Ch(s, i) IN
       IF c = "\"" THEN i + 1
       ELSE IF c = "\\" THEN IF i + 1 <= Len(s) /\ Ch(s, i + 1) \in QpChar THEN QsEnd(s, i + 2) ELSE 0
       ELSE IF c \in QdText THEN QsEnd(s, i + 1) ELSE 0
\* maximal run of non-comma characters and whole quoted strings from i; returns index after it
RECURSIVE RunEnd(_, _)
RunEnd(s, i) ==
  IF i > Len(s) THEN i
  ELSE LET c == Ch(s, i) IN
       IF c = "," THEN i
       ELSE IF c = "\"" THEN LET e == QsEnd(s, i + 1) IN IF e = 0 THEN i ELSE RunEnd(s, e)
       ELSE RunEnd(s, i + 1)
RECURSIVE SplitListFrom(_, _, _)
SplitListFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET e == RunEnd(s, i) IN
       IF e = i \/ (e <= Len(s) /\ Ch(s, e) # ",") THEN SplitListFrom(s, i + 1, acc)
       ELSE LET v == Strip(SubSeq(s, i, e - 1)) IN
            SplitListFrom(s, e, IF v = "" THEN acc ELSE Append(acc, v))
SplitList(s) == SplitListFrom(s, 1, <<>>)
\* where quotes enclose nothing, every comma separates
CommaSplit(s) == LET q == Split(s, ",") IN SelectSeq([k \in 1..Len(q) |-> Strip(q[k])], LAMBDA x : x # "")

\* list members with the line they came from
RECURSIVE MembersFrom(_, _, _)
MembersFrom(occ, i, acc) ==
  IF i > Len(occ) THEN acc
  ELSE LET q == SplitList(occ[i][2]) IN
       MembersFrom(occ, i + 1, acc \o [k \in 1..Len(q) |-> <<occ[i][1], q[k]>>])
Members(ls, name) == MembersFrom(LinesOf(ls, name), 1, <<>>)
Off(k) == "offset-" \o ToString(k)

\* unquoting a quoted-string
RECURSIVE UnescFrom(_, _, _)
UnescFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF Ch(s, i) = "\\" /\ i < Len(s) /\ Ch(s, i + 1) # "\n" THEN UnescFrom(s, i + 2, acc \o Ch(s, i + 1))
  ELSE UnescFrom(s, i + 1, acc \o Ch(s, i))
Unquote(s0) == LET s == Strip(s0) IN
               IF s = "" \/ s = "*" THEN s
               ELSE IF Ch(s, 1) = "\"" /\ Ch(s, Len(s)) = "\"" THEN UnescFrom(SubSeq(s, 2, Len(s) - 1), 1, "")
               ELSE s

\* integers: optional minus sign, then digits
IntRec(s) ==
  LET neg == Len(s) > 0 /\ Ch(s, 1) = "-"
      body == IF neg THEN From(s, 2) ELSE s
      okc == Len(body) > 0 /\ AllIn(body, Digit)
      digs == IF okc THEN Canon(body) ELSE "0"
      ok == okc /\ Len(body) <= 4300
  IN [ok |-> ok, neg |-> (neg /\ digs # "0"), d |-> digs]
IntText(r) == "i" \o (IF r.neg THEN "-" ELSE "") \o r.d
\* saturated value for arithmetic
Cap == 2000000000
IntVal(r) == LET v == IF Len(r.d) > 10 \/ ~NumLess(r.d, "2000000000") THEN Cap ELSE NumFrom(r.d, 1, 0)
             IN IF r.neg THEN 0 - v ELSE v

Token == Plus(C(TChar))
QuotedString == S(<<C({"\""}), Star(A(<<C(QdText), S(<<C({"\\"}), C(QpChar)>>)>>)), C({"\""})>>)

\* syntax notes of a list field: every member is checked on its own.  DETAILED when some prefix matches.
SyntaxKeys(ls, name, g, canonical) ==
  LET m == Members(ls, name) IN
  Cat([k \in 1..Len(m) |->
       IF FullMatch(g, m[k][2]) THEN <<>>
       ELSE IF Ends(g, m[k][2], {1}) # {} THEN <<NoteKey("BAD_SYNTAX_DETAILED(" \o canonical \o ")", Off(m[k][1]))>>
       ELSE <<NoteKey("BAD_SYNTAX(" \o canonical \o ")", Off(m[k][1]))>>])

\* how long a duration is called in English (babel, threshold 1.2)
RoundDiv(a, u) == LET q == a \div u r == a % u IN
                  IF 2 * r > u THEN q + 1 ELSE IF 2 * r < u THEN q ELSE IF q % 2 = 0 THEN q ELSE q + 1
Units == << <<"year", 31536000>>, <<"month", 2592000>>, <<"week", 604800>>, <<"day", 86400>>,
            <<"hour", 3600>>, <<"minute", 60>>, <<"second", 1>> >>
Plural(n, u) == ToString(n) \o " " \o u \o (IF n = 1 THEN "" ELSE "s")
RECURSIVE DurFrom(_, _)
DurFrom(a, k) == LET u == Units[k][2] IN
  IF k = 7 \/ a >= u + (u \div 5) THEN Plural(RoundDiv(a, u), Units[k][1]) ELSE DurFrom(a, k + 1)
Duration(secs) == DurFrom(IF secs < 0 THEN 0 - secs ELSE secs, 1)
=============================================================================
