------------------------------- MODULE Html -------------------------------
(***************************************************************************)
(* Message data in the text of notes.  In a summary it stands as it is; in *)
(* the HTML of a detail it is character data: replacing every hostile      *)
(* character of the data by a harmless one must change nothing but that    *)
(* character.                                                              *)
(***************************************************************************)
EXTENDS Text
\* ---- HTML: escaping, character references, a tokenizer -------------------
RefOf == ("amp" :> "&") @@ ("lt" :> "<") @@ ("gt" :> ">") @@ ("quot" :> "\"") @@ ("apos" :> "'") @@ ("nbsp" :> CharOf(160))
EscOf == ("&" :> "&amp;") @@ ("<" :> "&lt;") @@ (">" :> "&gt;") @@ ("\"" :> "&#34;") @@ ("'" :> "&#39;")
RECURSIVE MapChars(_, _)
MapChars(Op(_), s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN Op(s)
                      ELSE LET h == Len(s) \div 2 IN MapChars(Op, SubSeq(s, 1, h)) \o MapChars(Op, From(s, h + 1))
Escape(s) == MapChars(LAMBDA c : IF c \in DOMAIN EscOf THEN EscOf[c] ELSE c, s)
RECURSIVE HexNum(_, _, _)
HexNum(s, k, acc) == IF k > Len(s) THEN acc ELSE HexNum(s, k + 1, acc * 16 + HexVal[Ch(s, k)])
NumericRef(n) == LET d == From(n, 2) IN
  IF Len(d) \in 1..6 /\ AllIn(d, Digit) THEN Num(d)
  ELSE IF Len(d) \in 2..6 /\ Ch(d, 1) \in {"x", "X"} /\ AllIn(From(d, 2), HexDig) THEN HexNum(d, 2, 0) ELSE 0 - 1
IsRef(n) == n \in DOMAIN RefOf \/ (StartsWith(n, "#") /\ NumericRef(n) >= 0)
RefText(n) == IF n \in DOMAIN RefOf THEN RefOf[n] ELSE IF NumericRef(n) < 256 THEN CharOf(NumericRef(n)) ELSE "~"
\* the end of a reference that starts at index k, or 0
RefEnd(s, k) == LET e == FindFrom(SubSeq(s, 1, IF k + 9 < Len(s) THEN k + 9 ELSE Len(s)), k, {";"}) IN
                IF e > k /\ IsRef(SubSeq(s, k + 1, e - 1)) THEN e ELSE 0
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(s, k, acc) == LET a == FindFrom(s, k, {"&"}) IN
  IF a = 0 THEN acc \o From(s, k)
  ELSE LET e == RefEnd(s, a) IN
       IF e = 0 THEN DecodeFrom(s, a + 1, acc \o SubSeq(s, k, a)) ELSE DecodeFrom(s, e + 1, acc \o SubSeq(s, k, a - 1) \o RefText(SubSeq(s, a + 1, e - 1)))
Decode(s) == DecodeFrom(s, 1, "")
RECURSIVE RefsOk(_, _)
RefsOk(s, k) == LET a == FindFrom(s, k, {"&"}) IN a = 0 \/ (RefEnd(s, a) > 0 /\ RefsOk(s, a + 1))
\* a piece that follows a "<": the tag, up to its end outside quotes, and the text after it
RECURSIVE TagEnd(_, _, _)
TagEnd(s, k, q) == IF k > Len(s) THEN 0
                   ELSE LET c == Ch(s, k) IN
                        IF q # "" THEN TagEnd(s, k + 1, IF c = q THEN "" ELSE q)
                        ELSE IF c \in {"\"", "'"} THEN TagEnd(s, k + 1, c) ELSE IF c = ">" THEN k ELSE TagEnd(s, k + 1, "")
TagPart(s) == SubSeq(s, 1, TagEnd(s, 1, ""))
AfterTag(s) == From(s, TagEnd(s, 1, "") + 1)
\* the tags of a document: every "<" opens one
TagsOf(h) == LET ps == Split(h, "<") IN [k \in 1..(Len(ps) - 1) |-> LET p == ps[k + 1] IN IF TagEnd(p, 1, "") = 0 THEN "<broken" ELSE TagPart(p)]
\* a tag's shape: its attribute values left out
RECURSIVE Shape(_, _, _, _)
Shape(s, k, q, acc) == IF k > Len(s) THEN acc
                       ELSE LET c == Ch(s, k) IN
                            IF q # "" THEN Shape(s, k + 1, IF c = q THEN "" ELSE q, IF c = q THEN acc \o c ELSE acc)
                            ELSE Shape(s, k + 1, IF c \in {"\"", "'"} THEN c ELSE "", acc \o c)
ShapesOf(h) == LET ts == TagsOf(h) IN [k \in 1..Len(ts) |-> Shape(ts[k], 1, "", "")]

\* ---- harmless text ----------------------------------------------------------
\* characters with no form of their own in a rendered text; a Markdown renderer may complete
\* what looks like a character reference in a block of code by a ";"
Lost == {"`", ";", CharOf(2), CharOf(3)}
NeutralChar(c) == IF c \in AlNum THEN c ELSE IF c \in PyWS \cup Lost THEN "" ELSE "x"
Neutral(s) == MapChars(NeutralChar, s)          \* for comparison
BenignChar(c) == IF c \in AlNum THEN c ELSE IF c \in PyWS THEN " " ELSE IF c \in Lost THEN "" ELSE "x"
Benign(s) == MapChars(BenignChar, s)            \* to be shown instead
Squash(s) == MapChars(LAMBDA c : IF c \in PyWS \cup Lost THEN "" ELSE c, s)

\* ---- templates ------------------------------------------------------------------
\* vs: pairs of a variable's name and its text; "%(name)s" stands for it and "%%" for "%"
ValueOf(vs, n) == LET I == {k \in 1..Len(vs) : vs[k][1] = n} IN IF I = {} THEN "(no value)" ELSE vs[CHOOSE k \in I : TRUE][2]
RECURSIVE InterpFrom(_, _, _, _)
InterpFrom(t, k, vs, acc) == LET a == FindFrom(t, k, {"%"}) IN
  IF a = 0 THEN acc \o From(t, k)
  ELSE LET pre == acc \o SubSeq(t, k, a - 1) IN
       IF a < Len(t) /\ Ch(t, a + 1) = "%" THEN InterpFrom(t, a + 2, vs, pre \o "%")
       ELSE LET e == FindFrom(t, a, {")"}) IN
            IF a < Len(t) /\ Ch(t, a + 1) = "(" /\ e > 0 /\ e < Len(t) /\ Ch(t, e + 1) \in {"s", "d"} THEN InterpFrom(t, e + 2, vs, pre \o ValueOf(vs, SubSeq(t, a + 2, e - 1)))
            ELSE pre \o "(bad template)"
Interp(t, vs) == InterpFrom(t, 1, vs, "")

\* ---- Markdown that the library composed itself, around message data ------------------
\* Markup lies outside code spans; there, none of what may come from a message.
HostileOutside == {"<", ">", "&", "[", "]", "_", CharOf(92), "#", "*"}
RECURSIVE Outside(_, _, _)
Outside(ps, k, acc) == IF k > Len(ps) THEN acc ELSE Outside(ps, k + 1, acc \o (IF k % 2 = 1 THEN ps[k] ELSE "``"))
LineOk(l) == LET a == LTrimSet(l, {" "})
                 b == IF StartsWith(a, "* ") \/ StartsWith(a, "- ") THEN From(a, 3) ELSE a
                 d == IF StartsWith(b, "**``**") THEN From(b, 7) ELSE b
             IN ~AnyIn(d, HostileOutside)
Breaks == {CharOf(10), CharOf(13)}
RECURSIVE SplitLines(_, _, _, _)
SplitLines(s, b, k, acc) == IF k > Len(s) THEN Append(acc, From(s, b))
                            ELSE IF Ch(s, k) \in Breaks THEN SplitLines(s, k + 1, k + 1, Append(acc, SubSeq(s, b, k - 1)))
                            ELSE SplitLines(s, b, k + 1, acc)
LinesOf(s) == SplitLines(s, 1, 1, <<>>)
IsBlock(s) == LET ls == LinesOf(s) IN Len(ls) > 2 /\ ls[1] = "" /\ ls[2] = "" /\ \A k \in 3..Len(ls) : StartsWith(ls[k], "    ")
SafeOk(s) == IsBlock(s) \/ LET ps == Split(s, "`") ls == LinesOf(Outside(ps, 1, "")) IN
                           /\ Len(ps) % 2 = 1
                           /\ \A k \in 1..(Len(ps) \div 2) : ~AnyIn(ps[2 * k], Breaks)
                           /\ \A k \in 1..Len(ls) : LineOk(ls[k])
=============================================================================
