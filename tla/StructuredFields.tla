------------------------- MODULE StructuredFields -------------------------
(***************************************************************************)
(* RFC 9651 parsing.  A bare value is tagged text: i(nteger) n(decimal)    *)
(* s(tring) t(oken) b(ytes) @(date) p(display string), True, False.        *)
(* An item is [v, il, ps]: il = <<FALSE>> or an inner list.                 *)
(* Every parse returns [ok, i, ...] with the position reached, and the      *)
(* duplicate keys met on the way (even when the parse fails later).         *)
(***************************************************************************)
EXTENDS Fields

LcAlpha == LowerC
KeyStart == LcAlpha \cup {"*"}
KeyChar == LcAlpha \cup Digit \cup {"_", "-", ".", "*"}
TokStart == Alpha \cup {"*"}
TokChar == TChar \cup {":", "/"}
Printable == CharRange(32, 126)
B64Char == AlNum \cup {"+", "/"}

AtCh(s, i, c) == i <= Len(s) /\ Ch(s, i) = c
RECURSIVE Skip(_, _, _)
Skip(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN Skip(s, i + 1, set) ELSE i

Bad(i) == [ok |-> FALSE, i |-> i, v |-> ""]
Good(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

\* numbers: 4.2.4
Number(s, i0) ==
  LET neg == AtCh(s, i0, "-")
      i == IF neg THEN i0 + 1 ELSE i0
      a == Skip(s, i, Digit)
      intd == SubSeq(s, i, a - 1)
      isDec == AtCh(s, a, ".")
      e == Skip(s, a + 1, Digit)
      frac == SubSeq(s, a + 1, e - 1)
      sign == IF neg THEN "-" ELSE ""
  IN IF a = i THEN Bad(i)
     ELSE IF ~isDec THEN IF Len(intd) > 15 THEN Bad(a)
                         ELSE Good(a, "i" \o (IF Canon(intd) = "0" THEN "" ELSE sign) \o Canon(intd))
     ELSE IF Len(intd) > 12 \/ Len(frac) = 0 \/ Len(frac) > 3 THEN Bad(e)
     ELSE Good(e, "n" \o sign \o Canon(intd) \o "." \o frac)

RECURSIVE StrFrom(_, _, _)
StrFrom(s, i, acc) ==
  IF i > Len(s) THEN Bad(i)
  ELSE LET c == Ch(s, i) IN
       IF c = "\"" THEN Good(i + 1, "s" \o acc)
       ELSE IF c = "\\" THEN IF i + 1 <= Len(s) /\ Ch(s, i + 1) \in {"\"", "\\"}
                             THEN StrFrom(s, i + 2, acc \o Ch(s, i + 1)) ELSE Bad(i)
       ELSE IF c \in Printable THEN StrFrom(s, i + 1, acc \o c) ELSE Bad(i)

\* base64
B64Val(c) == IF c \in Upper THEN Code[c] - 65 ELSE IF c \in LowerC THEN Code[c] - 71
             ELSE IF c \in Digit THEN Code[c] + 4 ELSE IF c = "+" THEN 62 ELSE 63
RECURSIVE B64From(_, _, _)
B64From(s, i, acc) ==
  LET n == Len(s) - i + 1 IN
  IF n <= 1 THEN acc
  ELSE LET a == B64Val(Ch(s, i)) b == B64Val(Ch(s, i + 1))
           x == CharOf(a * 4 + b \div 16) IN
       IF n = 2 THEN acc \o x
       ELSE LET d == B64Val(Ch(s, i + 2)) y == CharOf((b % 16) * 16 + d \div 4) IN
            IF n = 3 THEN acc \o x \o y
            ELSE B64From(s, i + 4, acc \o x \o y \o CharOf((d % 4) * 64 + B64Val(Ch(s, i + 3))))
SfBytes(s, i) ==       \* i just after the opening colon
  LET e == FindFrom(s, i, {":"})
      q == SubSeq(s, i, e - 1)
      u == RTrimSet(q, {"="})
      pad == Len(q) - Len(u)
  IN IF e = 0 THEN Bad(i)
     ELSE IF ~AllIn(u, B64Char) \/ pad > 2 \/ (pad > 0 /\ u = "") \/ Len(u) % 4 = 1 THEN Bad(e)
     ELSE Good(e + 1, "b" \o B64From(u, 1, ""))

\* display strings: percent-encoded UTF-8, kept here as its bytes
LHex == Digit \cup {"a", "b", "c", "d", "e", "f"}
RECURSIVE DispFrom(_, _, _)
DispFrom(s, i, acc) ==
  IF i > Len(s) THEN Bad(i)
  ELSE LET c == Ch(s, i) IN
       IF c = "\"" THEN Good(i + 1, acc)
       ELSE IF c = "%" THEN IF i + 2 <= Len(s) /\ Ch(s, i + 1) \in LHex /\ Ch(s, i + 2) \in LHex
                            THEN DispFrom(s, i + 3, acc \o CharOf(16 * HexVal[Ch(s, i + 1)] + HexVal[Ch(s, i + 2)]))
                            ELSE Bad(i)
       ELSE IF c \in Printable THEN DispFrom(s, i + 1, acc \o c) ELSE Bad(i)
Cont == CharRange(128, 191)
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET c == Code[Ch(s, i)]
           k(j) == i + j <= Len(s) /\ Ch(s, i + j) \in Cont
           n == Code[Ch(s, i + 1)]
       IN IF c < 128 THEN Utf8From(s, i + 1)
          ELSE IF c \in 194..223 THEN k(1) /\ Utf8From(s, i + 2)
          ELSE IF c \in 224..239 THEN k(1) /\ k(2) /\ (c = 224 => n >= 160) /\ (c = 237 => n < 160) /\ Utf8From(s, i + 3)
          ELSE IF c \in 240..244 THEN k(1) /\ k(2) /\ k(3) /\ (c = 240 => n >= 144) /\ (c = 244 => n < 144) /\ Utf8From(s, i + 4)
          ELSE FALSE
IsUtf8(s) == Utf8From(s, 1)

DateOk(v) ==     \* "i..." within years 1 to 9999
  LET neg == Ch(v, 2) = "-" d == From(v, IF neg THEN 3 ELSE 2) IN
  IF neg THEN ~NumLess("62135596800", d) ELSE ~NumLess("253402300799", d)

BareItem(s, i) ==
  IF i > Len(s) THEN Bad(i)
  ELSE LET c == Ch(s, i) IN
    IF c = "-" \/ c \in Digit THEN Number(s, i)
    ELSE IF c = "\"" THEN StrFrom(s, i + 1, "")
    ELSE IF c \in TokStart THEN LET e == Skip(s, i + 1, TokChar) IN Good(e, "t" \o SubSeq(s, i, e - 1))
    ELSE IF c = ":" THEN SfBytes(s, i + 1)
    ELSE IF c = "?" THEN IF AtCh(s, i + 1, "1") THEN Good(i + 2, "True")
                         ELSE IF AtCh(s, i + 1, "0") THEN Good(i + 2, "False") ELSE Bad(i)
    ELSE IF c = "@" THEN LET r == Number(s, i + 1) IN
                         IF r.ok /\ Ch(r.v, 1) = "i" /\ DateOk(r.v) THEN Good(r.i, "@" \o From(r.v, 2)) ELSE Bad(i)
    ELSE IF c = "%" THEN IF ~AtCh(s, i + 1, "\"") THEN Bad(i)
                         ELSE LET r == DispFrom(s, i + 2, "") IN
                              IF r.ok /\ IsUtf8(r.v) THEN Good(r.i, "p" \o r.v) ELSE Bad(i)
    ELSE Bad(i)

Key(s, i) == IF i <= Len(s) /\ Ch(s, i) \in KeyStart
             THEN LET e == Skip(s, i + 1, KeyChar) IN Good(e, SubSeq(s, i, e - 1)) ELSE Bad(i)

\* ordered maps: a repeated key keeps its place and takes the new value
HasKey(q, key) == \E k \in 1..Len(q) : q[k].k = key
Put(q, key, val) == IF HasKey(q, key) THEN [k \in 1..Len(q) |-> IF q[k].k = key THEN [k |-> key, v |-> val] ELSE q[k]]
                    ELSE Append(q, [k |-> key, v |-> val])
Get(q, key) == q[CHOOSE k \in 1..Len(q) : q[k].k = key].v

\* results: [ok, i, ps, dup]
RECURSIVE SfParamsFrom(_, _, _, _)
SfParamsFrom(s, i, ps, dup) ==
  IF ~AtCh(s, i, ";") THEN [ok |-> TRUE, i |-> i, ps |-> ps, dup |-> dup]
  ELSE LET kr == Key(s, Skip(s, i + 1, {" "})) IN
       IF ~kr.ok THEN [ok |-> FALSE, i |-> i, ps |-> ps, dup |-> dup]
       ELSE LET vr == IF AtCh(s, kr.i, "=") THEN BareItem(s, kr.i + 1) ELSE Good(kr.i, "True") IN
            IF ~vr.ok THEN [ok |-> FALSE, i |-> i, ps |-> ps, dup |-> dup]
            ELSE SfParamsFrom(s, vr.i, Put(ps, kr.v, vr.v),
                            IF HasKey(ps, kr.v) THEN Append(dup, "parameter," \o kr.v) ELSE dup)
SfParams(s, i, dup) == SfParamsFrom(s, i, <<>>, dup)

\* an item or inner list: [ok, i, v, isIL, il, ps, dup]; v is a tagged value, or "(" for an inner list
NoItem(i, dup) == [ok |-> FALSE, i |-> i, v |-> "", il |-> <<>>, ps |-> <<>>, dup |-> dup]
Item(s, i, dup) ==
  LET b == BareItem(s, i) IN
  IF ~b.ok THEN NoItem(i, dup)
  ELSE LET p == SfParams(s, b.i, dup) IN
       [ok |-> p.ok, i |-> p.i, v |-> b.v, il |-> <<>>, ps |-> p.ps, dup |-> p.dup]
RECURSIVE InnerFrom(_, _, _, _)
InnerFrom(s, i0, il, dup) ==
  LET i == Skip(s, i0, {" "}) IN
  IF i > Len(s) THEN NoItem(i, dup)
  ELSE IF Ch(s, i) = ")" THEN LET p == SfParams(s, i + 1, dup) IN
       [ok |-> p.ok, i |-> p.i, v |-> "(", il |-> il, ps |-> p.ps, dup |-> p.dup]
  ELSE LET it == Item(s, i, dup) IN
       IF ~it.ok \/ ~(AtCh(s, it.i, " ") \/ AtCh(s, it.i, ")")) THEN NoItem(i, it.dup)
       ELSE InnerFrom(s, it.i, Append(il, [v |-> it.v, ps |-> it.ps]), it.dup)
ItemOrInner(s, i, dup) == IF AtCh(s, i, "(") THEN InnerFrom(s, i + 1, <<>>, dup) ELSE Item(s, i, dup)
Member(r) == [v |-> r.v, il |-> r.il, ps |-> r.ps]

RECURSIVE SfListFrom(_, _, _, _)
SfListFrom(s, i, acc, dup) ==
  IF i > Len(s) THEN [ok |-> TRUE, i |-> i, q |-> acc, dup |-> dup]
  ELSE LET r == ItemOrInner(s, i, dup)
           j == Skip(s, r.i, OWS)
           j2 == Skip(s, j + 1, OWS) IN
       IF ~r.ok THEN [ok |-> FALSE, i |-> i, q |-> <<>>, dup |-> r.dup]
       ELSE IF j > Len(s) THEN [ok |-> TRUE, i |-> j, q |-> Append(acc, Member(r)), dup |-> r.dup]
       ELSE IF Ch(s, j) # "," \/ j2 > Len(s) THEN [ok |-> FALSE, i |-> j, q |-> <<>>, dup |-> r.dup]
       ELSE SfListFrom(s, j2, Append(acc, Member(r)), r.dup)

RECURSIVE SfDictFrom(_, _, _, _)
SfDictFrom(s, i, acc, dup) ==
  LET kr == Key(s, i) IN
  IF ~kr.ok THEN [ok |-> FALSE, i |-> i, q |-> <<>>, dup |-> dup]
  ELSE LET p == SfParams(s, kr.i, dup)
           r == IF AtCh(s, kr.i, "=") THEN ItemOrInner(s, kr.i + 1, dup)
                ELSE [ok |-> p.ok, i |-> p.i, v |-> "True", il |-> <<>>, ps |-> p.ps, dup |-> p.dup]
           d2 == IF HasKey(acc, kr.v) THEN Append(r.dup, "dictionary," \o kr.v) ELSE r.dup
           j == Skip(s, r.i, OWS)
           j2 == Skip(s, j + 1, OWS)
           acc2 == Put(acc, kr.v, Member(r)) IN
       IF ~r.ok THEN [ok |-> FALSE, i |-> i, q |-> <<>>, dup |-> r.dup]
       ELSE IF j > Len(s) THEN [ok |-> TRUE, i |-> j, q |-> acc2, dup |-> d2]
       ELSE IF Ch(s, j) # "," \/ j2 > Len(s) THEN [ok |-> FALSE, i |-> j, q |-> <<>>, dup |-> d2]
       ELSE SfDictFrom(s, j2, acc2, d2)

\* whole values; kind in item, list, dictionary.  q: members (items: one member)
SfParse(s0, kind) ==
  LET s == StripOWS(s0) IN
  IF kind = "item" THEN LET r == Item(s, 1, <<>>) IN
      [ok |-> r.ok /\ r.i > Len(s), q |-> IF r.ok THEN <<Member(r)>> ELSE <<>>, dup |-> r.dup]
  ELSE IF kind = "list" THEN LET r == SfListFrom(s, 1, <<>>, <<>>) IN [ok |-> r.ok, q |-> r.q, dup |-> r.dup]
  ELSE IF s = "" THEN [ok |-> TRUE, q |-> <<>>, dup |-> <<>>]
  ELSE LET r == SfDictFrom(s, 1, <<>>, <<>>) IN [ok |-> r.ok, q |-> r.q, dup |-> r.dup]

\* all lines of a field, joined
SfCombined(ls, name) == LET o == LinesOf(ls, name) IN Join([k \in 1..Len(o) |-> o[k][2]], ", ")
SfField(ls, name, kind) == SfParse(SfCombined(ls, name), kind)

\* the text a parsed value is recorded as
RECURSIVE FlatParams(_, _, _)
FlatParams(ps, k, acc) == IF k > Len(ps) THEN acc
                          ELSE FlatParams(ps, k + 1, acc \o (IF k > 1 THEN "," ELSE "") \o "s" \o ps[k].k \o ":" \o ps[k].v)
FlatPs(ps) == "{" \o FlatParams(ps, 1, "") \o "}"
FlatMember(x) == IF x.v = "(" THEN "([" \o Join([k \in 1..Len(x.il) |-> "(" \o x.il[k].v \o "," \o FlatPs(x.il[k].ps) \o ")"], ",") \o "]," \o FlatPs(x.ps) \o ")"
                 ELSE "(" \o x.v \o "," \o FlatPs(x.ps) \o ")"
FlatSf(r, kind) ==
  IF ~r.ok THEN "None"
  ELSE IF kind = "item" THEN FlatMember(r.q[1])
  ELSE IF kind = "list" THEN "[" \o Join([k \in 1..Len(r.q) |-> FlatMember(r.q[k])], ",") \o "]"
  ELSE "{" \o Join([k \in 1..Len(r.q) |-> "s" \o r.q[k].k \o ":" \o FlatMember(r.q[k].v)], ",") \o "}"

\* what every structured field reports about its syntax
SfVocab == {"STRUCTURED_FIELD_PARSE_ERROR", "DUPLICATE_KEY"}
SfNotes(r, lname) == [k \in 1..Len(r.dup) |-> "DUPLICATE_KEY(" \o r.dup[k] \o ")@field-" \o lname]
                     \o One(~r.ok, "STRUCTURED_FIELD_PARSE_ERROR@field-" \o lname)
Ty(v) == IF v \in {"True", "False"} THEN "B" ELSE Ch(v, 1)
=============================================================================
