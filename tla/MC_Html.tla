------------------------------ MODULE MC_Html ------------------------------
(* Hostile strings made of every short sequence of pieces, put into text and into attribute values. *)
EXTENDS Html
CONSTANTS Pieces, MaxPieces
Bq == "`"
PiecesIn == {"<b>", "</code>", "</p>", "<img src=x onerror=a>", "<script>", "\"", "'", "&", "&lt;", "&#60;b>", "&amp;lt;", ">", "<", "<!--", "%", "%(x)s", "%s", "%%", Bq, Bq \o Bq, Bq \o "<b>" \o Bq, "*a*", "**", "_a_", "[a](javascript:x)", "![a](b)", "<http://a.b>",
             CharOf(92), CharOf(10), CharOf(10) \o CharOf(10), CharOf(10) \o "# a", CharOf(10) \o "    a", CharOf(13), CharOf(9), " ", CharOf(0), CharOf(2), CharOf(2) \o "klzzwxh:0000" \o CharOf(3), CharOf(160), CharOf(233), "zq", "- ", ",", ";", "="}
PiecesLong == {"<b>", "</code>", "\"", "'", "&", "&lt;", ">", "%(x)s", "%", Bq, "*", "_", "[a](b)", CharOf(92), CharOf(10), " ", CharOf(2), "zq"}
VARIABLES p, done
Init == done = FALSE /\ p \in UNION {[1..n -> Pieces] : n \in 0..MaxPieces}
Next == ~done /\ done' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, done>>
Payload == Join(p, "")
\* a template of a detail, with the data as text and as an attribute's value
Page(x, y) == "<p>The <code>" \o x \o "</code> field, see <a href=\"" \o y \o "\" title='" \o y \o "'>" \o x \o "</a>.</p>"
RoundTrip == done => Decode(Escape(Payload)) = Payload /\ RefsOk(Escape(Payload), 1)
NoMarkup == done => ShapesOf(Page(Escape(Payload), Escape(Payload))) = ShapesOf(Page("x", "x"))
ShownWhole == done => LET e == TagsOf(Page("x", Escape(Payload)))[4] IN Decode(SubSeq(e, 9, 8 + Len(Escape(Payload)))) = Payload
BenignSame == done => /\ Neutral(Benign(Payload)) = Neutral(Payload)
                      /\ Neutral(Decode(Escape(Payload))) = Neutral(Benign(Payload))
                      /\ ShapesOf(Page(Escape(Benign(Payload)), "x")) = ShapesOf(Page(Escape(Payload), "x"))
                      /\ Escape(Benign(Payload)) = Benign(Payload)
\* data isn't interpreted again
OnceOnly == done => /\ Interp("a%%%(x)s%(y)s", << <<"x", Payload>>, <<"y", "z">> >>) = "a%" \o Payload \o "z"
                   /\ Interp(Interp("%(x)s", << <<"x", "%(y)s">> >>), << <<"y", Payload>> >>) = Payload
\* a code span holds anything without a backtick and line breaks, and nothing else holds markup
Spans == done => LET c == MapChars(LAMBDA k : IF k = Bq THEN "" ELSE IF k \in Breaks THEN " " ELSE k, Payload) IN
                 /\ SafeOk("* " \o Bq \o c \o Bq \o ": yes" \o CharOf(10) \o "**" \o Bq \o c \o Bq \o "**:")
                 /\ (AnyIn(c, {"<", ">", "&", "[", "_"}) => ~SafeOk(Bq \o "a" \o Bq \o ": " \o c))
\* raw data would matter: otherwise the rules above would hold of anything
Emit == ~done \/ PrintT("SCN " \o ToJson([p |-> Payload]))
RawMatters == done /\ Len(p) > 0 => (p[1] \in {"<b>", "</p>", "<script>"} => ShapesOf(Page(Payload, "x")) # ShapesOf(Page("x", "x")))
=============================================================================
