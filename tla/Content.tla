------------------------------ MODULE Content ------------------------------
(***************************************************************************)
(* Content-Type and Content-Disposition, and whether a response's content  *)
(* is what its Content-Type says.  m.body = <<u, n, tail>> is n copies of  *)
(* u followed by tail (before any content coding); only the first 8192     *)
(* bytes are examined.                                                     *)
(***************************************************************************)
EXTENDS Params

CtPresent(m) == Present(m.headers, "content-type")
CtValue(m) == OneOf(m.headers, "content-type")
CtType(m) == TypeOf(CtValue(m))
CtParams(m) == ParamsOf(After(CtValue(m), ";"), {"charset"})
CtText(m) == "(s" \o CtType(m) \o "," \o DictText(CtParams(m).d) \o ")"
CtNotes(m) == IF ~CtPresent(m) THEN <<>>
  ELSE At(CtParams(m).notes \o TypeNameNotes(CtType(m), FALSE), "field-content-type")
       \o One(~FullMatch(MediaType, CtValue(m)), NoteKey("BAD_SYNTAX(Content-Type)", "field-content-type"))

CdValue(m) == OneOf(m.headers, "content-disposition")
CdType(m) == Lower(Strip(Before(CdValue(m), ";")))
CdParams(m) == ParamsOf(After(CdValue(m), ";"), {})
CdText(m) == "(s" \o CdType(m) \o "," \o DictText(CdParams(m).d) \o ")"
CdGrammar == S(<<Token, Star(S(<<WS0, C({";"}), WS0, Parameter>>))>>)
CdName(m, n) == IF HasName(CdParams(m).d, n) THEN ValueIn(CdParams(m).d, n) ELSE ""
CdNotes(m) == IF ~Present(m.headers, "content-disposition") THEN <<>>
  ELSE LET f == CdName(m, "filename") g == CdName(m, "filename*") IN
       At(CdParams(m).notes \o One(CdType(m) \notin {"inline", "attachment"}, "DISPOSITION_UNKNOWN")
          \o One(CdType(m) = "attachment" /\ ~HasName(CdParams(m).d, "filename"), "DISPOSITION_OMITS_FILENAME")
          \o One(Has(f, "%"), "DISPOSITION_FILENAME_PERCENT")
          \* a value beyond ISO-8859-1 is shown with a mark that has a backslash of its own
          \o One(AnyIn(f, {"/", "\\"}) \/ AnyIn(IF StartsWith(g, "\\u") THEN From(g, 3) ELSE g, {"/", "\\"}), "DISPOSITION_FILENAME_PATH_CHAR")
          \o One(~FullMatch(CdGrammar, CdValue(m)), "BAD_SYNTAX(Content-Disposition)"), "field-content-disposition")

-----------------------------------------------------------------------------
\* the examined content
Examined == 8192
U(m) == m.body[1]
Total(m) == m.body[2] * Len(U(m)) + Len(m.body[3])
RECURSIVE Rep(_, _)
Rep(s, k) == IF k <= 0 THEN "" ELSE s \o Rep(s, k - 1)
Min(a, b) == IF a < b THEN a ELSE b
\* its beginning, and a shorter content with the same middles and ends: the copies of u that matter are few
Start(m) == SubSeq(Rep(U(m), Min(m.body[2], 20)) \o m.body[3], 1, Min(20, Total(m)))
Piece(m) == LET c == m.body[2] * Len(U(m)) IN
            IF c >= Examined THEN SubSeq(U(m), 1, Examined % Len(U(m))) ELSE SubSeq(m.body[3], 1, Min(Len(m.body[3]), Examined - c))
Alike(m) == Rep(U(m), Min(8, Min(m.body[2], IF U(m) = "" THEN 0 ELSE Examined \div Len(U(m))))) \o Piece(m)
Complete(m) == ~HasF(m, "complete") \/ m.complete
Cut(m) == Total(m) > Examined \/ ~Complete(m)

Full(m) == m.kind = "response" /\ HasF(m, "body") /\ Total(m) > 0 /\ ~HasF(m, "head") /\ ~HasF(m, "no_content")
           /\ m.top[2] \notin {"204", "205", "206", "304"} /\ ~(Len(m.top[2]) = 3 /\ Ch(m.top[2], 1) = "1")

-----------------------------------------------------------------------------
\* what images begin with
Sig(h, q) == StartsWith(h, TextOf(q))
Recognised(h) ==
  IF Sig(h, <<0, 0, 1, 0>>) \/ Sig(h, <<0, 0, 2, 0>>) THEN "image/x-icon"
  ELSE IF StartsWith(h, "GIF87a") \/ StartsWith(h, "GIF89a") THEN "image/gif"
  ELSE IF StartsWith(h, "RIFF") /\ SubSeq(h, 9, Min(14, Len(h))) = "WEBPVP" THEN "image/webp"
  ELSE IF Sig(h, <<137, 80, 78, 71, 13, 10, 26, 10>>) THEN "image/png"
  ELSE IF Sig(h, <<255, 216, 255>>) THEN "image/jpeg" ELSE ""
\* types that say nothing: what is said of content declared so is left open
AnyType == {"*/*", "unknown/unknown", "application/unknown"}
Recognisable == {"image/x-icon", "image/gif", "image/webp", "image/png", "image/jpeg"}
IsXml(t) == LET s == After(t, "/") IN (EndsWith(s, "+xml") /\ Len(s) > 4) \/ t \in {"text/xml", "application/xml"} \/ s = "+xml"
Sniffed(t) == TypeShaped(t) /\ IsToken(Before(t, "/")) /\ IsToken(After(t, "/")) /\ ~IsXml(t)
              /\ (Before(t, "/") \in {"image", "audio", "video"} \/ t = "application/ogg")
TypeMismatch(m) == LET t == CtType(m) r == Recognised(Start(m)) IN
                   Sniffed(t) /\ (IF r # "" THEN r # t ELSE t \in Recognisable)

-----------------------------------------------------------------------------
\* character encodings whose decoding is specified here
Charset == [utf8 |-> {"utf-8", "utf8", "utf_8"}, ascii |-> {"us-ascii", "ascii"}, latin1 |-> {"iso-8859-1", "latin1", "iso8859-1", "latin-1"},
            cp1252 |-> {"windows-1252", "cp1252"}, koi8r |-> {"koi8-r", "koi8_r"},
            total |-> {"iso-8859-15", "iso-8859-5", "ibm866"}, cp1251 |-> {"windows-1251"},
            \* whether content decodes in these is asked of the environment (det.ok)
            asked |-> {"shift_jis", "euc-jp", "gb18030", "big5", "iso-2022-jp"}]
UnknownCharset == {"", "foo", "x-unknown", "utf-88", "iso-8859-99", "windows-1", "none", "binary"}
\* (quotes around a name are overlooked)
Bare(s) == LET a == IF StartsWith(s, "'") THEN From(s, 2) ELSE s IN IF EndsWith(a, "'") THEN SubSeq(a, 1, Len(a) - 1) ELSE a
KindOf(name) == LET X == {k \in DOMAIN Charset : Lower(Bare(name)) \in Charset[k]} IN IF X = {} THEN "other" ELSE CHOOSE k \in X : TRUE
\* position of the first ill-formed place in UTF-8 (0: none); an incomplete end is none if more may follow
RECURSIVE BadUtf8(_, _, _)
BadUtf8(q, p, more) ==
  IF p > Len(q) THEN 0
  ELSE LET n == Need(q[p]) IN
       IF n < 0 THEN p
       ELSE LET c == Conts(q, p, 0, n) IN
            IF c = n THEN BadUtf8(q, p + n + 1, more) ELSE IF p + c = Len(q) /\ more THEN 0
            \* (two thirds of an encoded surrogate are left open, too)
            ELSE IF more /\ p + 1 = Len(q) /\ q[p] = 237 /\ q[p + 1] \in 160..191 THEN 0 ELSE p
Decodes(kind, s, more, ok) ==
  CASE kind = "asked" -> ok
    [] kind = "cp1251" -> \A k \in 1..Len(s) : Code[Ch(s, k)] # 152
    [] kind = "utf8" -> BadUtf8(Bytes(s), 1, more) = 0
    [] kind = "ascii" -> \A k \in 1..Len(s) : Code[Ch(s, k)] < 128
    [] kind = "cp1252" -> \A k \in 1..Len(s) : Code[Ch(s, k)] \notin {129, 141, 143, 144, 157}
    [] OTHER -> TRUE
NeedsUtf8(t) == t \in {"application/json", "text/json"} \/ EndsWith(IF Has(t, "/") THEN After(t, "/") ELSE t, "+json")
DeclaredCharset(m) == LET d == CtParams(m).d IN
  IF NeedsUtf8(CtType(m)) THEN "utf-8" ELSE IF StartsWith(CtType(m), "text/") /\ HasName(d, "charset") THEN ValueIn(d, "charset") ELSE ""
Implicit(m) == NeedsUtf8(CtType(m)) /\ ~HasName(CtParams(m).d, "charset")
Checked(m) == DeclaredCharset(m) # "" /\ KindOf(DeclaredCharset(m)) # "other" /\ \E k \in 1..Len(Alike(m)) : Code[Ch(Alike(m), k)] > 127
\* det: what a detector of encodings makes of the examined content: another name, confidently, whether the text is the same, and
\* whether it decodes as declared
CharsetNote(m, det) ==
  IF ~Full(m) \/ ~CtPresent(m) \/ ~Checked(m) THEN <<>>
  ELSE IF ~Decodes(KindOf(DeclaredCharset(m)), Alike(m), Cut(m), det.ok) THEN <<NoteKey("CHARSET_UNDECODABLE", "content-type")>>
  \* well-formed UTF-8 outside ASCII is UTF-8
  ELSE IF KindOf(DeclaredCharset(m)) = "utf8" \/ ~det.other \/ det.same THEN <<>>
  ELSE <<NoteKey(IF Implicit(m) THEN "CHARSET_IMPLICIT_MISMATCH" ELSE "CHARSET_MISMATCH", "content-type")>>
TypeNote(m) == One(Full(m) /\ CtPresent(m) /\ TypeMismatch(m), NoteKey("CONTENT_TYPE_MISMATCH", "content-type"))

ContentVocab == ParamVocab \cup TypeVocab \cup {"DISPOSITION_UNKNOWN", "DISPOSITION_OMITS_FILENAME", "DISPOSITION_FILENAME_PERCENT", "DISPOSITION_FILENAME_PATH_CHAR",
  "CHARSET_UNDECODABLE", "CHARSET_IMPLICIT_MISMATCH", "CHARSET_MISMATCH", "CONTENT_TYPE_MISMATCH"}
ContentNotes(m, det) == CtNotes(m) \o CdNotes(m) \o CharsetNote(m, det) \o TypeNote(m)
=============================================================================
