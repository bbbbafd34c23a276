------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Parameters (name=value, separated by semicolons) as the library reads   *)
(* them: RFC 9110 section 5.6.6 and RFC 8187 for the names ending in "*".  *)
(***************************************************************************)
EXTENDS Fields, Utf8
Parameter == S(<<Token, C({"="}), A(<<Token, QuotedString>>)>>)
WS0 == Star(C(OWS))
Parameters == Star(S(<<WS0, C({";"}), WS0, Opt(Parameter)>>))
MediaType == S(<<Token, C({"/"}), Token, Parameters>>)
MediaRange == MediaType                         \* "*" is a token

\* the parameters in a text: each is <<name, value as written>>; what isn't one is passed over
RECURSIVE TokEnd(_, _)
TokEnd(s, k) == IF k <= Len(s) /\ Ch(s, k) \in TChar THEN TokEnd(s, k + 1) ELSE k
ValEnd(s, k) == IF k <= Len(s) /\ Ch(s, k) = "\"" THEN QsEnd(s, k + 1) ELSE LET e == TokEnd(s, k) IN IF e = k THEN 0 ELSE e
Followed(s, k) == LET j == LSkip(s, k, PyWS) IN j > Len(s) \/ Ch(s, j) = ";"
RECURSIVE ScanFrom(_, _, _)
ScanFrom(s, k, acc) ==
  IF k > Len(s) THEN acc
  ELSE LET e == TokEnd(s, k) v == IF e > k /\ e <= Len(s) /\ Ch(s, e) = "=" THEN ValEnd(s, e + 1) ELSE 0 IN
       IF v # 0 /\ Followed(s, v) THEN ScanFrom(s, v, Append(acc, <<SubSeq(s, k, e - 1), SubSeq(s, e + 1, v - 1)>>))
       ELSE ScanFrom(s, k + 1, acc)
Scan(s) == ScanFrom(s, 1, <<>>)

\* what becomes of one: [v |-> its value as seen (if keep), notes]
StarValue(v, name) ==
  LET q == IF StartsWith(v, "\"") THEN SubSeq(v, 2, Len(v) - 1) ELSE v
      p == Split(q, "'")
      quoted == One(StartsWith(v, "\""), "PARAM_STAR_QUOTED(" \o name \o ")")
      bad(n) == [keep |-> FALSE, v |-> "", notes |-> Append(quoted, n \o "(" \o name \o ")")]
  IN IF Len(p) # 3 THEN bad("PARAM_STAR_ERROR")
     ELSE IF p[1] = "" THEN bad("PARAM_STAR_NOCHARSET")
     ELSE IF Lower(p[1]) # "utf-8" THEN bad("PARAM_STAR_CHARSET")
     ELSE [keep |-> TRUE, v |-> Seen(Unpct(p[3])), notes |-> quoted]
ParamValue(name, v, star) ==
  LET last == Ch(name, Len(name)) base == SubSeq(name, 1, Len(name) - 1)
      single == One(Ch(v, 1) = "'" /\ Ch(v, Len(v)) = "'", "PARAM_SINGLE_QUOTED(" \o name \o ")")
      r == IF last # "*" THEN [keep |-> TRUE, v |-> Unquote(v), notes |-> <<>>]
           ELSE IF base \in star THEN [keep |-> FALSE, v |-> "", notes |-> <<"PARAM_STAR_BAD(" \o base \o ")">>]
           ELSE StarValue(v, name)
  IN [r EXCEPT !.notes = single \o @]
\* all of them: d maps names to values (the last of a name counts), notes says what is wrong
HasName(d, n) == \E k \in 1..Len(d) : d[k][1] = n
ValueIn(d, n) == LET k == CHOOSE k \in 1..Len(d) : d[k][1] = n IN d[k][2]
SetName(d, n, v) == IF HasName(d, n) THEN [k \in 1..Len(d) |-> IF d[k][1] = n THEN <<n, v>> ELSE d[k]] ELSE Append(d, <<n, v>>)
RECURSIVE ParamsFrom(_, _, _, _)
ParamsFrom(q, k, star, acc) ==
  IF k > Len(q) THEN acc
  ELSE LET n == Lower(q[k][1]) r == ParamValue(n, q[k][2], star) IN
       ParamsFrom(q, k + 1, star,
         [d |-> IF r.keep THEN SetName(acc.d, n, r.v) ELSE acc.d,
          notes |-> acc.notes \o One(HasName(acc.d, n), "PARAM_REPEATS(" \o n \o ")") \o r.notes])
\* star: the parameter names that must not have a "*" form
ParamsOf(s, star) == ParamsFrom(Scan(s), 1, star, [d |-> <<>>, notes |-> <<>>])
At(notes, subject) == [k \in 1..Len(notes) |-> NoteKey(notes[k], subject)]
DictText(d) == "{" \o Join([k \in 1..Len(d) |-> "s" \o d[k][1] \o ":s" \o d[k][2]], ",") \o "}"
ParamVocab == {"PARAM_REPEATS", "PARAM_SINGLE_QUOTED", "PARAM_STAR_BAD", "PARAM_STAR_QUOTED", "PARAM_STAR_ERROR", "PARAM_STAR_NOCHARSET", "PARAM_STAR_CHARSET"}

\* media types: what a "type/subtype;parameters" text is taken to be, and the names RFC 6838 allows
TypeOf(s) == Lower(Strip(Before(s, ";")))
RestrictedChar == AlNum \cup {"!", "#", "$", "&", "-", "^", "_", ".", "+"}
IsToken(s) == s # "" /\ AllIn(s, TChar)
RegName6838(s) == Ch(s, 1) \in AlNum /\ AllIn(s, RestrictedChar)
MaxTypeName == 127
TypeShaped(t) == LET n == Before(t, "/") sub == After(t, "/") IN Has(t, "/") /\ n # "" /\ sub # "" /\ ~Has(sub, "/")
\* is it usable where (wild) "*" may stand for any name?
TypeUsable(t, wild) == TypeShaped(t) /\ LET n == Before(t, "/") sub == After(t, "/") IN
                       (n = "*" \/ sub = "*") => (wild /\ ~(n = "*" /\ sub # "*"))
TypeNames(t) == SelectSeq(<<Before(t, "/"), After(t, "/")>>, LAMBDA x : x # "*" /\ IsToken(x))
TypeNameNotes(t, wild) ==
  IF ~TypeUsable(t, wild) THEN <<>>
  ELSE LET q == TypeNames(t) IN
       One(\E k \in 1..Len(q) : Len(q[k]) > MaxTypeName, "MEDIA_TYPE_LONG_NAME") \o One(\E k \in 1..Len(q) : ~RegName6838(q[k]), "MEDIA_TYPE_BAD_NAME")
TypeVocab == {"MEDIA_TYPE_LONG_NAME", "MEDIA_TYPE_BAD_NAME"}
=============================================================================
