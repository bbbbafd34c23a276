------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON (RFC 8259) as read by a parser that also takes NaN and infinities. *)
(* A value is [t, s, q, ks]: t is o(bject) a(rray) s(tring) n(umber)       *)
(* True False None; s its text, q the values within, ks their names.       *)
(***************************************************************************)
EXTENDS Fields

JWs == {" ", "\t", "\n", "\r"}
JNone(i) == [ok |-> FALSE, i |-> i, v |-> ""]
JVal(t, s, q, ks) == [t |-> t, s |-> s, q |-> q, ks |-> ks]
JGood(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
RECURSIVE JSkip(_, _, _)
JSkip(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN JSkip(s, i + 1, set) ELSE i
JIs(s, i, c) == i <= Len(s) /\ Ch(s, i) = c
JHex(s, i) == 4096 * HexVal[Ch(s, i)] + 256 * HexVal[Ch(s, i + 1)] + 16 * HexVal[Ch(s, i + 2)] + HexVal[Ch(s, i + 3)]
JEsc == ("\"" :> "\"") @@ ("\\" :> "\\") @@ ("/" :> "/") @@ ("b" :> CharOf(8)) @@ ("f" :> CharOf(12)) @@ ("n" :> "\n") @@ ("r" :> "\r") @@ ("t" :> "\t")
\* the text of a string, from just after its opening quote; code points beyond Latin-1 are all "?"
RECURSIVE JStr(_, _, _)
JStr(s, i, acc) ==
  IF i > Len(s) THEN JNone(i)
  ELSE LET c == Ch(s, i) e == IF i < Len(s) THEN Ch(s, i + 1) ELSE "" IN
    IF c = "\"" THEN JGood(i + 1, acc)
    ELSE IF c = "\\" THEN
      IF e \in DOMAIN JEsc THEN JStr(s, i + 2, acc \o JEsc[e])
      ELSE IF e = "u" /\ i + 5 <= Len(s) /\ AllIn(SubSeq(s, i + 2, i + 5), HexDig)
           THEN JStr(s, i + 6, acc \o (IF JHex(s, i + 2) < 256 THEN CharOf(JHex(s, i + 2)) ELSE "?"))
      ELSE JNone(i)
    ELSE IF CodeOf(c) < 32 THEN JNone(i)
    ELSE JStr(s, i + 1, acc \o c)
\* how far a number goes, or 0
JNum(s, i0) ==
  LET i == IF JIs(s, i0, "-") THEN i0 + 1 ELSE i0
      a == IF JIs(s, i, "0") THEN i + 1 ELSE JSkip(s, i, Digit)
      b == IF a > i /\ JIs(s, a, ".") /\ JSkip(s, a + 1, Digit) > a + 1 THEN JSkip(s, a + 1, Digit) ELSE a
      x == IF JIs(s, b, "e") \/ JIs(s, b, "E") THEN (IF JIs(s, b + 1, "+") \/ JIs(s, b + 1, "-") THEN b + 2 ELSE b + 1) ELSE b
      d == IF x > b THEN JSkip(s, x, Digit) ELSE b IN
  IF a = i THEN 0 ELSE IF d > x THEN d ELSE b
JWords == <<"true", "false", "null", "NaN", "Infinity", "-Infinity">>
JWord(s, i) == LET I == {k \in 1..6 : i + Len(JWords[k]) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(JWords[k]) - 1) = JWords[k]} IN IF I = {} THEN 0 ELSE CHOOSE k \in I : TRUE
JPut(v, name, x) == IF \E k \in 1..Len(v.ks) : v.ks[k] = name
                    THEN [v EXCEPT !.q = [k \in 1..Len(@) |-> IF v.ks[k] = name THEN x ELSE @[k]] \o <<>>]
                    ELSE [v EXCEPT !.q = Append(@, x), !.ks = Append(@, name)]
RECURSIVE JParse(_, _), JItems(_, _, _), JPairs(_, _, _)
\* after "[" or a comma; after "{" or a comma
JItems(s, i0, v) ==
  LET r == JParse(s, JSkip(s, i0, JWs)) IN
  IF ~r.ok THEN r
  ELSE LET e == JSkip(s, r.i, JWs) w == [v EXCEPT !.q = Append(@, r.v)] IN
    IF JIs(s, e, "]") THEN JGood(e + 1, w) ELSE IF JIs(s, e, ",") THEN JItems(s, e + 1, w) ELSE JNone(e)
JPairs(s, i0, v) ==
  LET i == JSkip(s, i0, JWs) IN
  IF ~JIs(s, i, "\"") THEN JNone(i)
  ELSE LET n == JStr(s, i + 1, "") c == JSkip(s, n.i, JWs) IN
    IF ~n.ok \/ ~JIs(s, c, ":") THEN JNone(c)
    ELSE LET r == JParse(s, JSkip(s, c + 1, JWs)) IN
      IF ~r.ok THEN r
      ELSE LET e == JSkip(s, r.i, JWs) w == JPut(v, n.v, r.v) IN
        IF JIs(s, e, "}") THEN JGood(e + 1, w) ELSE IF JIs(s, e, ",") THEN JPairs(s, e + 1, w) ELSE JNone(e)
JParse(s, i) ==
  IF i > Len(s) THEN JNone(i)
  ELSE LET c == Ch(s, i) e == JSkip(s, i + 1, JWs) n == JNum(s, i) w == JWord(s, i) IN
    IF c = "\"" THEN LET r == JStr(s, i + 1, "") IN IF r.ok THEN JGood(r.i, JVal("s", r.v, <<>>, <<>>)) ELSE JNone(r.i)
    ELSE IF c = "[" THEN IF JIs(s, e, "]") THEN JGood(e + 1, JVal("a", "", <<>>, <<>>)) ELSE JItems(s, i + 1, JVal("a", "", <<>>, <<>>))
    ELSE IF c = "{" THEN IF JIs(s, e, "}") THEN JGood(e + 1, JVal("o", "", <<>>, <<>>)) ELSE JPairs(s, i + 1, JVal("o", "", <<>>, <<>>))
    ELSE IF w > 0 THEN JGood(i + Len(JWords[w]), JVal(IF w > 3 THEN "n" ELSE <<"True", "False", "None">>[w], JWords[w], <<>>, <<>>))
    ELSE IF n > 0 THEN JGood(n, JVal("n", SubSeq(s, i, n - 1), <<>>, <<>>))
    ELSE JNone(i)
\* a whole text
JRead(s) == LET r == JParse(s, JSkip(s, 1, JWs)) IN IF r.ok /\ JSkip(s, r.i, JWs) > Len(s) THEN r ELSE JNone(r.i)

JHas(v, name) == \E k \in 1..Len(v.ks) : v.ks[k] = name
JGet(v, name) == v.q[CHOOSE k \in 1..Len(v.ks) : v.ks[k] = name]
JInt(v) == v.t = "n" /\ AllIn(v.s, Digit \cup {"-"})
JNegative(v) == Ch(v.s, 1) = "-" /\ Canon(From(v.s, 2)) # "0"
\* is a number between 0 and 1?  d: its digits without leading zeros, p: how many are before the point
JExp(s) == LET k == Find(s, {"e", "E"}) x == IF k = 0 THEN "0" ELSE From(s, k + 1) IN
           IF Ch(x, 1) = "-" THEN 0 - NumCap(From(x, 2)) ELSE NumCap(IF Ch(x, 1) = "+" THEN From(x, 2) ELSE x)
JFraction(v) ==
  IF v.t # "n" \/ ~IsDigits(SubSeq(v.s, Len(v.s), Len(v.s))) THEN FALSE
  ELSE LET neg == Ch(v.s, 1) = "-" a == IF neg THEN From(v.s, 2) ELSE v.s
           m == LET k == Find(a, {"e", "E"}) IN IF k = 0 THEN a ELSE SubSeq(a, 1, k - 1)
           all == Before(m, ".") \o After(m, ".")
           d == LTrimSet(all, {"0"}) p == Len(Before(m, ".")) - (Len(all) - Len(d)) + JExp(a) IN
       d = "" \/ (~neg /\ (p < 1 \/ (p = 1 /\ RTrimSet(d, {"0"}) = "1")))
\* as compared values; numbers that aren't integers as they are
RECURSIVE JText(_)
JText(v) ==
  CASE v.t = "s" -> "s" \o v.s
    [] v.t = "n" -> "i" \o (IF JNegative(v) THEN "-" ELSE "") \o Canon(IF Ch(v.s, 1) = "-" THEN From(v.s, 2) ELSE v.s)
    [] v.t = "a" -> "[" \o Join([k \in 1..Len(v.q) |-> JText(v.q[k])], ",") \o "]"
    [] v.t = "o" -> "{" \o Join([k \in 1..Len(v.q) |-> "s" \o v.ks[k] \o ":" \o JText(v.q[k])], ",") \o "}"
    [] OTHER -> v.t
RECURSIVE JWhole(_)
JWhole(v) == (v.t = "n" => JInt(v)) /\ \A k \in 1..Len(v.q) : JWhole(v.q[k])
=============================================================================
