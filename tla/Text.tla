------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Text as TLA+ strings.  The library handles field text as ISO-8859-1, so *)
(* a character is one of the 256 one-character strings in Chr.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Chr == JsonDeserialize("chars.json")            \* Chr[i+1] is the character of code i
CharOf(n) == Chr[n + 1]
CharRange(a, b) == {Chr[k + 1] : k \in a..b}
Ch(s, i) == SubSeq(s, i, i)                     \* the i-th character

Digit  == CharRange(48, 57)
Upper  == CharRange(65, 90)
LowerC == CharRange(97, 122)
Alpha  == Upper \cup LowerC
AlNum  == Alpha \cup Digit
HexDig == Digit \cup CharRange(65, 70) \cup CharRange(97, 102)
OWS    == {" ", "\t"}
\* what Python's str.strip()/\s treat as whitespace within ISO-8859-1
PyWS   == {Chr[k + 1] : k \in (9..13) \cup (28..32) \cup {133, 160}}
VChar  == CharRange(33, 126)
ObsText == CharRange(128, 255)
TChar  == AlNum \cup {"!", "#", "$", "%", "&", "'", "*", "+", "-", ".", "^", "_", "`", "|", "~"}
\* Python's str.isdigit() within ISO-8859-1 also accepts superscripts
PyDigit == Digit \cup {Chr[179], Chr[180], Chr[186]}

Code == [c \in {Chr[k] : k \in 1..256} |-> (CHOOSE k \in 1..256 : Chr[k] = c) - 1]
DigitVal == [c \in Digit |-> Code[c] - 48]
HexVal == [c \in HexDig |-> IF c \in Digit THEN Code[c] - 48
                            ELSE IF c \in Upper THEN Code[c] - 55 ELSE Code[c] - 87]

\* str.lower(): ASCII plus the ISO-8859-1 letters
LatUpper == CharRange(192, 214) \cup CharRange(216, 222)
LowMap == [c \in Upper \cup LatUpper |-> Chr[Code[c] + 33]]
UpMap == [c \in LowerC |-> Chr[Code[c] - 31]]

RECURSIVE LowerFrom(_, _, _)
LowerFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Ch(s, i) IN
       LowerFrom(s, i + 1, acc \o (IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c))
RECURSIVE Lower(_)
Lower(s) == IF Len(s) > 256 THEN Lower(SubSeq(s, 1, Len(s) \div 2)) \o Lower(SubSeq(s, Len(s) \div 2 + 1, Len(s))) ELSE LowerFrom(s, 1, "")

RECURSIVE UpperFrom(_, _, _)
UpperFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Ch(s, i) IN
       UpperFrom(s, i + 1, acc \o (IF c \in LowerC THEN UpMap[c] ELSE c))
ToUpper(s) == UpperFrom(s, 1, "")

AllIn(s, set) == \A i \in 1..Len(s) : Ch(s, i) \in set
AnyIn(s, set) == \E i \in 1..Len(s) : Ch(s, i) \in set
CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}

RECURSIVE LSkip(_, _, _)
LSkip(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN LSkip(s, i + 1, set) ELSE i
RECURSIVE RSkip(_, _, _)
RSkip(s, j, set) == IF j >= 1 /\ Ch(s, j) \in set THEN RSkip(s, j - 1, set) ELSE j
From(s, i) == SubSeq(s, i, Len(s))
TrimSet(s, set) == LET a == LSkip(s, 1, set) IN SubSeq(s, a, RSkip(s, Len(s), set))
RTrimSet(s, set) == SubSeq(s, 1, RSkip(s, Len(s), set))
LTrimSet(s, set) == From(s, LSkip(s, 1, set))
Strip(s) == TrimSet(s, PyWS)
StripOWS(s) == TrimSet(s, OWS)

RECURSIVE FindFrom(_, _, _)                     \* first index >= i of character in set, or 0
FindFrom(s, i, set) == IF i > Len(s) THEN 0
  ELSE IF Len(s) - i > 256      \* a block at a time
  THEN LET I == {k \in i..(i + 127) : Ch(s, k) \in set} IN IF I = {} THEN FindFrom(s, i + 128, set) ELSE CHOOSE k \in I : \A j \in I : k <= j
  ELSE IF Ch(s, i) \in set THEN i ELSE FindFrom(s, i + 1, set)
Find(s, set) == FindFrom(s, 1, set)
RECURSIVE FindStrFrom(_, _, _)                  \* first index >= i of substring, or 0
FindStrFrom(s, i, t) == IF i + Len(t) - 1 > Len(s) THEN 0
                        ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i ELSE FindStrFrom(s, i + 1, t)
FindStr(s, t) == FindStrFrom(s, 1, t)
Contains(s, t) == FindStr(s, t) # 0
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

RECURSIVE SplitFrom(_, _, _, _, _)              \* Python s.split(c)
SplitFrom(s, b, i, c, acc) ==
  IF i > Len(s) THEN Append(acc, SubSeq(s, b, Len(s)))
  ELSE IF Ch(s, i) = c THEN SplitFrom(s, i + 1, i + 1, c, Append(acc, SubSeq(s, b, i - 1)))
  ELSE SplitFrom(s, b, i + 1, c, acc)
Split(s, c) == SplitFrom(s, 1, 1, c, <<>>)

RECURSIVE WordsFrom(_, _, _)                    \* Python s.split()
WordsFrom(s, i, acc) ==
  LET a == LSkip(s, i, PyWS) IN
  IF a > Len(s) THEN acc
  ELSE LET e == FindFrom(s, a, PyWS)
           j == IF e = 0 THEN Len(s) ELSE e - 1
       IN WordsFrom(s, j + 1, Append(acc, SubSeq(s, a, j)))
Words(s) == WordsFrom(s, 1, <<>>)

\* before / after the first occurrence of a character (Python partition)
Before(s, c) == LET k == Find(s, {c}) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
After(s, c)  == LET k == Find(s, {c}) IN IF k = 0 THEN "" ELSE From(s, k + 1)
Has(s, c) == Find(s, {c}) # 0

RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(q, i, sep, acc) == IF i > Len(q) THEN acc
                            ELSE JoinFrom(q, i + 1, sep, IF i = 1 THEN q[1] ELSE acc \o sep \o q[i])
Join(q, sep) == JoinFrom(q, 1, sep, "")

RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NumFrom(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
IsDigits(s) == Len(s) > 0 /\ AllIn(s, Digit)
\* decimal numerals are kept as canonical strings: no leading zeros
RECURSIVE LZ(_, _)
LZ(s, i) == IF i < Len(s) /\ Ch(s, i) = "0" THEN LZ(s, i + 1) ELSE From(s, i)
Canon(s) == LZ(s, 1)
Big(s) == Len(Canon(s)) > 9
Num(s) == NumFrom(Canon(s), 1, 0)               \* only if ~Big(s)
BigCap == 1000000000
NumCap(s) == IF Big(s) THEN BigCap ELSE Num(s)  \* saturating
\* order on canonical numerals of any size
CodeOf(c) == Code[c]
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF Ch(a, i) = Ch(b, i) THEN LexLess(a, b, i + 1)
                    ELSE DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)]
NumLess(a, b) == LET x == Canon(a) y == Canon(b) IN
                 IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLess(x, y, 1)

\* sequences
SeqSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE CatFrom(_, _, _)
CatFrom(qq, i, acc) == IF i > Len(qq) THEN acc ELSE CatFrom(qq, i + 1, acc \o qq[i])
Cat(qq) == CatFrom(qq, 1, <<>>)                 \* flatten
MapSeq(Op(_), q) == [i \in 1..Len(q) |-> Op(q[i])]
Keep(q, Test(_)) == SelectSeq(q, Test)
CountIn(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
If(b, q) == IF b THEN q ELSE <<>>
One(b, x) == IF b THEN <<x>> ELSE <<>>
HasF(r, f) == f \in DOMAIN r
=============================================================================
