----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* A message's life: Idle -> Headers -> Content* -> Finished, what the     *)
(* linter accounts for on the way, and the verdicts it gives at the end.   *)
(* Bytes are hexadecimal text, two characters per byte.                    *)
(***************************************************************************)
EXTENDS Fields

HLen(h) == Len(h) \div 2
HByte(h, i) == 16 * HexVal[Ch(h, 2 * i - 1)] + HexVal[Ch(h, 2 * i)]      \* i-th byte, from 1
HTake(h, n) == IF 2 * n >= Len(h) THEN h ELSE SubSeq(h, 1, 2 * n)
HDrop(h, n) == SubSeq(h, 2 * n + 1, Len(h))
SampleSize == 8192
MaxDecoded == 104857600
RECURSIVE JoinAll(_, _, _)
JoinAll(q, i, acc) == IF i > Len(q) THEN acc ELSE JoinAll(q, i + 1, acc \o q[i])
Concat(chunks) == JoinAll(chunks, 1, "")
RECURSIVE SumFrom(_, _, _)
SumFrom(q, i, acc) == IF i > Len(q) THEN acc ELSE SumFrom(q, i + 1, acc + q[i])
Sum(q) == SumFrom(q, 1, 0)

---------------------------------------------------------------------------
(* Which message is this *)
Section(m) == IF HasF(m, "headers") THEN m.headers ELSE <<>>
Method(m) == m.top[1]
StatusText(m) == m.top[2]
IsHead(m) == HasF(m, "head") /\ m.head
NoContent(m) == HasF(m, "no_content") /\ m.no_content
StatusIs(m, n) == LET r == IntRec(StatusText(m)) IN r.ok /\ ~r.neg /\ r.d = ToString(n)
MayHaveContent(m) == m.kind = "request" \/ ~(IsHead(m) \/ StatusIs(m, 304))

(* Content-Length: a singleton; the first line counts.  A usable one is a run of digits; any other *)
(* is wrong whatever the length is. *)
ClRec(m) == LET o == LinesOf(Section(m), "content-length") IN
            IF o = <<>> THEN [ok |-> FALSE, neg |-> FALSE, d |-> "absent"]
            ELSE LET v == Strip(o[1][2]) IN [ok |-> IsDigits(v), neg |-> FALSE, d |-> IF IsDigits(v) THEN Canon(v) ELSE v]

Undefined == {"GET", "HEAD", "DELETE", "CONNECT", "TRACE"}
LengthVocab == {"CL_CORRECT", "CL_INCORRECT", "CONTENT_NOT_ALLOWED", "REQUEST_CONTENT_NOT_DEFINED"}
ClSubject == "field-content-length"
\* the verdicts for a finished message that received n bytes
LengthNotes(m, n) ==
  IF NoContent(m) THEN <<>>
  ELSE (IF MayHaveContent(m)
        THEN One(Present(Section(m), "content-length"),
                 NoteKey(IF ClRec(m).ok /\ ClRec(m).d = ToString(n) THEN "CL_CORRECT" ELSE "CL_INCORRECT", ClSubject))
        ELSE One(n > 0, NoteKey("CONTENT_NOT_ALLOWED", "message")))
       \o One(m.kind = "request" /\ n > 0 /\ Method(m) \in Undefined, NoteKey("REQUEST_CONTENT_NOT_DEFINED", "message"))
\* verdicts that need to look at content: never given when the linter was told not to look
ContentVerdicts == LengthVocab \cup {"CONTENT_TYPE_MISMATCH", "CHARSET_UNDECODABLE", "CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH",
                                     "BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI", "DECOMPRESSION_LIMIT"}

---------------------------------------------------------------------------
(* gzip (RFC 1952) around deflate (RFC 1951), for streams of stored blocks.  First formulation:     *)
(* positions in the whole input.  -1: incomplete, -2: not gzip, else the length of the header.      *)
FlagSet(f, b) == (f \div b) % 2 = 1
RECURSIVE Zstr(_, _)                    \* index after a null-terminated string starting at byte i, or 0
Zstr(h, i) == IF i > HLen(h) THEN 0 ELSE IF HByte(h, i) = 0 THEN i + 1 ELSE Zstr(h, i + 1)
GzHeader(h) ==
  IF HLen(h) < 10 THEN 0 - 1
  ELSE IF HTake(h, 3) # "1f8b08" THEN 0 - 2
  ELSE LET f == HByte(h, 4)
           p1 == IF ~FlagSet(f, 4) THEN 11
                 ELSE IF HLen(h) < 12 THEN 0
                 ELSE LET p == 13 + HByte(h, 11) + 256 * HByte(h, 12) IN IF p - 1 > HLen(h) THEN 0 ELSE p
           p2 == IF p1 = 0 \/ ~FlagSet(f, 8) THEN p1 ELSE Zstr(h, p1)
           p3 == IF p2 = 0 \/ ~FlagSet(f, 16) THEN p2 ELSE Zstr(h, p2)
           p4 == IF p3 = 0 \/ ~FlagSet(f, 2) THEN p3 ELSE IF p3 + 1 > HLen(h) THEN 0 ELSE p3 + 2
       IN IF p4 = 0 THEN 0 - 1 ELSE p4 - 1
RECURSIVE StoredFrom(_, _, _)
StoredFrom(h, i, acc) ==
  IF i > HLen(h) THEN [st |-> "open", out |-> acc]
  ELSE LET b == HByte(h, i) ty == (b \div 2) % 4 IN
       IF ty # 0 THEN [st |-> "bad", out |-> acc]              \* reserved block type (others are not generated)
       ELSE IF i + 4 > HLen(h) THEN [st |-> "open", out |-> acc]
       ELSE LET n == HByte(h, i + 1) + 256 * HByte(h, i + 2)
                c == HByte(h, i + 3) + 256 * HByte(h, i + 4) IN
            IF n + c # 65535 THEN [st |-> "bad", out |-> acc]
            ELSE IF i + 4 + n > HLen(h) THEN [st |-> "open", out |-> acc \o HDrop(h, i + 4)]
            ELSE LET out == acc \o SubSeq(h, 2 * (i + 4) + 1, 2 * (i + 4 + n)) IN
                 IF b % 2 = 1 THEN [st |-> "done", out |-> out]
                 ELSE StoredFrom(h, i + 5 + n, out)
GzDecode(h) == LET k == GzHeader(h) IN
               IF k = 0 - 1 THEN [note |-> "", out |-> ""]
               ELSE IF k = 0 - 2 THEN [note |-> "BAD_GZIP", out |-> ""]
               ELSE LET r == StoredFrom(HDrop(h, k), 1, "") IN
                    [note |-> IF r.st = "bad" THEN "BAD_ZLIB" ELSE "", out |-> r.out]

(* Second formulation: a machine fed one byte at a time.  MC_Life checks that the two agree on      *)
(* every prefix, hence that decoding does not depend on how the bytes are split.                    *)
GzInit == [ph |-> "fixed", k |-> 0, f |-> 0, b |-> 0, n |-> 0, c |-> 0, ok |-> TRUE, note |-> "", out |-> ""]
AfterName(s) == IF FlagSet(s.f, 16) THEN [s EXCEPT !.ph = "comment"]
                ELSE IF FlagSet(s.f, 2) THEN [s EXCEPT !.ph = "crc", !.k = 0] ELSE [s EXCEPT !.ph = "block"]
AfterComment(s) == IF FlagSet(s.f, 2) THEN [s EXCEPT !.ph = "crc", !.k = 0] ELSE [s EXCEPT !.ph = "block"]
AfterExtra(s) == IF FlagSet(s.f, 8) THEN [s EXCEPT !.ph = "name"] ELSE AfterName(s)
AfterFixed(s) == IF ~s.ok THEN [s EXCEPT !.ph = "dead", !.note = "BAD_GZIP"]
                 ELSE IF FlagSet(s.f, 4) THEN [s EXCEPT !.ph = "xlen", !.k = 0, !.n = 0] ELSE AfterExtra(s)
AfterBlock(s) == IF s.b % 2 = 1 THEN [s EXCEPT !.ph = "done"] ELSE [s EXCEPT !.ph = "block"]
GzByte(s, x, hx) ==
  CASE s.ph = "fixed" -> LET good == (s.k # 0 \/ x = 31) /\ (s.k # 1 \/ x = 139) /\ (s.k # 2 \/ x = 8)
                             t == [s EXCEPT !.k = s.k + 1, !.ok = s.ok /\ good, !.f = IF s.k = 3 THEN x ELSE s.f]
                         IN IF t.k = 10 THEN AfterFixed(t) ELSE t
    [] s.ph = "xlen" -> IF s.k = 0 THEN [s EXCEPT !.k = 1, !.n = x]
                        ELSE LET t == [s EXCEPT !.n = s.n + 256 * x, !.ph = "extra"] IN IF t.n = 0 THEN AfterExtra(t) ELSE t
    [] s.ph = "extra" -> LET t == [s EXCEPT !.n = s.n - 1] IN IF t.n = 0 THEN AfterExtra(t) ELSE t
    [] s.ph = "name" -> IF x = 0 THEN AfterName(s) ELSE s
    [] s.ph = "comment" -> IF x = 0 THEN AfterComment(s) ELSE s
    [] s.ph = "crc" -> IF s.k = 0 THEN [s EXCEPT !.k = 1] ELSE [s EXCEPT !.ph = "block"]
    [] s.ph = "block" -> IF (x \div 2) % 4 # 0 THEN [s EXCEPT !.ph = "dead", !.note = "BAD_ZLIB"]
                         ELSE [s EXCEPT !.ph = "len", !.b = x, !.k = 0, !.n = 0, !.c = 0]
    [] s.ph = "len" -> LET t == [s EXCEPT !.k = s.k + 1,
                                          !.n = IF s.k = 0 THEN x ELSE IF s.k = 1 THEN s.n + 256 * x ELSE s.n,
                                          !.c = IF s.k = 2 THEN x ELSE IF s.k = 3 THEN s.c + 256 * x ELSE s.c]
                       IN IF t.k < 4 THEN t
                          ELSE IF t.n + t.c # 65535 THEN [t EXCEPT !.ph = "dead", !.note = "BAD_ZLIB"]
                          ELSE IF t.n = 0 THEN AfterBlock(t) ELSE [t EXCEPT !.ph = "data"]
    [] s.ph = "data" -> LET t == [s EXCEPT !.n = s.n - 1, !.out = s.out \o hx] IN IF t.n = 0 THEN AfterBlock(t) ELSE t
    [] OTHER -> s
RECURSIVE GzFeedFrom(_, _, _)
GzFeedFrom(s, h, i) == IF i > HLen(h) THEN s
                       ELSE GzFeedFrom(GzByte(s, HByte(h, i), SubSeq(h, 2 * i - 1, 2 * i)), h, i + 1)
GzFeed(s, h) == GzFeedFrom(s, h, 1)

---------------------------------------------------------------------------
(* The decoding pipeline: codings as listed by the sender, undone last first. *)
Codings(m) == LET q == Members(Section(m), "content-encoding") IN [k \in 1..Len(q) |-> Lower(q[k][2])]
IsGz(c) == c \in {"gzip", "x-gzip"}
Layers(m) == SelectSeq(Codings(m), LAMBDA c : IsGz(c) \/ c = "br")
\* exact: the outcome is the same whatever the chunks; after corruption only bounds are
RECURSIVE Undo(_, _, _)
Undo(layers, k, r) ==
  IF k = 0 THEN r
  ELSE LET g == GzDecode(r.out) IN
       Undo(layers, k - 1,
            [out |-> g.out, exact |-> r.exact /\ g.note = "",
             notes |-> IF g.note = "" THEN r.notes
                       ELSE IF r.exact THEN Append(r.notes, g.note) ELSE r.notes,
             maybe |-> IF r.exact THEN r.maybe ELSE r.maybe + 1])
Decoded(m, raw) == LET l == Layers(m) IN Undo(l, Len(l), [out |-> raw, exact |-> TRUE, notes |-> <<>>, maybe |-> 0])
CodingVocab == {"BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI", "DECOMPRESSION_LIMIT"}
CodingSubject == "field-content-encoding"
\* what has surely been delivered: everything decoded from the chunks before the one that breaks
RECURSIVE SafeFrom(_, _, _, _)
SafeFrom(m, chunks, i, h) ==
  IF i > Len(chunks) THEN Decoded(m, h).out
  ELSE LET h2 == h \o chunks[i] IN
       IF ~Decoded(m, h2).exact THEN Decoded(m, h).out ELSE SafeFrom(m, chunks, i + 1, h2)
Surely(m, chunks) == SafeFrom(m, chunks, 1, "")
=============================================================================
