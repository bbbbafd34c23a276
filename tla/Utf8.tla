-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8: bytes (a sequence of 0..255, or text whose characters stand for  *)
(* them) to code points, an ill-formed maximal subpart counting as U+FFFD, *)
(* and percent-encoding.                                                   *)
(***************************************************************************)
EXTENDS Text
Bytes(s) == [k \in 1..Len(s) |-> Code[Ch(s, k)]]
RECURSIVE TextFrom(_, _, _)
TextFrom(q, k, acc) == IF k > Len(q) THEN acc ELSE TextFrom(q, k + 1, acc \o CharOf(q[k]))
TextOf(q) == TextFrom(q, 1, "")                 \* only if every element is below 256

\* how many continuation bytes follow a lead byte (-1: not a lead byte), and the range of the first of them
Need(x) == IF x < 128 THEN 0 ELSE IF x \in 194..223 THEN 1 ELSE IF x \in 224..239 THEN 2 ELSE IF x \in 240..244 THEN 3 ELSE 0 - 1
First(x) == IF x = 224 THEN 160..191 ELSE IF x = 237 THEN 128..159 ELSE IF x = 240 THEN 144..191 ELSE IF x = 244 THEN 128..143 ELSE 128..191
Lead(x) == IF x < 128 THEN x ELSE IF x < 224 THEN x - 192 ELSE IF x < 240 THEN x - 224 ELSE x - 240
RECURSIVE Conts(_, _, _, _)                     \* how many of the n continuation bytes after position p are there
Conts(q, p, k, n) == IF k < n /\ p + k + 1 <= Len(q) /\ q[p + k + 1] \in (IF k = 0 THEN First(q[p]) ELSE 128..191) THEN Conts(q, p, k + 1, n) ELSE k
RECURSIVE Point(_, _, _, _)
Point(q, p, k, n) == IF k = 0 THEN Lead(q[p]) ELSE Point(q, p, k - 1, n) * 64 + (q[p + k] - 128)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(q, p, acc) ==
  IF p > Len(q) THEN acc
  ELSE LET n == Need(q[p]) IN
       IF n < 0 THEN DecodeFrom(q, p + 1, Append(acc, 65533))
       ELSE LET c == Conts(q, p, 0, n) IN
            DecodeFrom(q, p + c + 1, Append(acc, IF c = n THEN Point(q, p, n, n) ELSE 65533))
Decode(q) == DecodeFrom(q, 1, <<>>)
EncodePoint(c) == IF c < 128 THEN <<c>>
                  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
                  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
                  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE EncodeFrom(_, _, _)
EncodeFrom(q, k, acc) == IF k > Len(q) THEN acc ELSE EncodeFrom(q, k + 1, acc \o EncodePoint(q[k]))
Encode(q) == EncodeFrom(q, 1, <<>>)
\* how an observation writes text given as code points
Seen(q) == IF \A k \in 1..Len(q) : q[k] < 256 THEN TextOf(q) ELSE "\\u" \o TextOf(Encode(q))

HexU == "0123456789ABCDEF"
Pct(x) == "%" \o Ch(HexU, (x \div 16) + 1) \o Ch(HexU, (x % 16) + 1)
RECURSIVE QuoteFrom(_, _, _, _)                 \* text of bytes with every byte outside safe percent-encoded
QuoteFrom(s, k, safe, acc) == IF k > Len(s) THEN acc ELSE QuoteFrom(s, k + 1, safe, acc \o (IF Ch(s, k) \in safe THEN Ch(s, k) ELSE Pct(Code[Ch(s, k)])))
Quote(s, safe) == QuoteFrom(s, 1, safe, "")
IsPct(s, k) == Ch(s, k) = "%" /\ k + 2 <= Len(s) /\ Ch(s, k + 1) \in HexDig /\ Ch(s, k + 2) \in HexDig
\* percent-decoding text: octets next to each other are decoded together, characters outside ASCII stand for themselves
RECURSIVE UnpctFrom(_, _, _, _)
UnpctFrom(s, k, run, acc) ==
  IF k > Len(s) THEN acc \o Decode(run)
  ELSE LET x == Code[Ch(s, k)] IN
       IF x > 127 THEN UnpctFrom(s, k + 1, <<>>, acc \o Decode(run) \o <<x>>)
       ELSE IF IsPct(s, k) THEN UnpctFrom(s, k + 3, Append(run, HexVal[Ch(s, k + 1)] * 16 + HexVal[Ch(s, k + 2)]), acc)
       ELSE UnpctFrom(s, k + 1, Append(run, x), acc)
Unpct(s) == UnpctFrom(s, 1, <<>>, <<>>)
=============================================================================
