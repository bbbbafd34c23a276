----------------------------- MODULE OtherFields -----------------------------
(***************************************************************************)
(* Fields that have a small rule each: Via, Server, Server-Timing, Pragma, *)
(* Max-Forwards, Expect, Clear-Site-Data, Alt-Svc, Age and                 *)
(* Access-Control-Max-Age; and how these and the fields without a rule of  *)
(* their own (cookies, validators, credentials, warnings) are read.        *)
(***************************************************************************)
EXTENDS Grammars

\* the members of a list field, each with the line it is on
RECURSIVE OfFrom(_, _, _, _)
OfFrom(n, occ, k, acc) ==
  IF k > Len(occ) THEN acc
  ELSE LET q == SplitFor(n, occ[k][2]) IN OfFrom(n, occ, k + 1, acc \o [j \in 1..Len(q) |-> [at |-> occ[k][1], v |-> q[j]]])
OfMembers(m, n) == OfFrom(n, LinesOf(m.headers, n), 1, <<>>)
Vals(q) == [k \in 1..Len(q) |-> q[k].v] \o <<>>
OfField(note, n) == NoteKey(note, "field-" \o n)
With(note, x) == note \o "(" \o x \o ")"

\* Via and Server
ViaNotes(m) == One(OfMembers(m, "via") # <<>>, OfField("VIA_PRESENT", "via"))
LongServer == 64
ServerNotes(m) == LET q == OfMembers(m, "server") IN Cat([k \in 1..Len(q) |-> One(Len(q[k].v) > LongServer, NoteKey("SERVER_TOO_LONG", Off(q[k].at)))])

\* Server-Timing: each metric should have a duration that is a number, and a description
StName(s) == Strip(Before(s, ";"))
StParams(s) == ParamsOf(After(s, ";"), {"desc"})
Digs == Plus(C(Digit))
Float == S(<<Opt(C({"-"})), A(<<S(<<Digs, Opt(S(<<C({"."}), Digs>>))>>), S(<<C({"."}), Digs>>)>>), Opt(S(<<C({"e", "E"}), Opt(C({"+", "-"})), Digs>>))>>)
TimingNotes(m) ==
  LET q == OfMembers(m, "server-timing") f == "server-timing" IN
  Cat([k \in 1..Len(q) |->
    LET p == StParams(q[k].v) n == StName(q[k].v) IN
    At(p.notes, Off(q[k].at))
    \o One(~HasName(p.d, "dur"), OfField(With("SERVER_TIMING_MISSING_DUR", n), f))
    \o (IF ~HasName(p.d, "dur") THEN <<>> ELSE LET v == ValueIn(p.d, "dur") IN One(~FullMatch(Float, v), OfField(With("SERVER_TIMING_BAD_PARAM", n \o ",dur," \o v), f)))
    \o One(~HasName(p.d, "desc"), OfField(With("SERVER_TIMING_MISSING_DESC", n), f))])

\* requests
PragmaNotes(m) == LET q == OfMembers(m, "pragma") IN One(\E k \in 1..Len(q) : Lower(q[k].v) # "no-cache", OfField("PRAGMA_OTHER", "pragma"))
ForwardsNotes(m) == One(Present(m.headers, "max-forwards") /\ m.top[1] \notin {"TRACE", "OPTIONS"}, OfField("MAX_FORWARDS_IGNORED", "max-forwards"))
ExpectNotes(m) ==
  LET q == Vals(OfMembers(m, "expect")) un == SelectSeq(q, LAMBDA x : Lower(x) # "100-continue") IN
  One(Present(m.headers, "expect") /\ m.top[3] \in {"1.0", "HTTP/1.0"}, OfField("EXPECT_HTTP_1_0", "expect"))
  \o One(un # <<>>, OfField(With("EXPECT_UNKNOWN", Join(un, ", ")), "expect"))
AgentNotes(m) == One(~Present(m.headers, "user-agent"), OfField("MISSING_USER_AGENT", "user-agent"))

\* Clear-Site-Data: quoted, and known
CsdKnown == {"cache", "cookies", "storage", "executionContexts", "*"}
CsdQuoted(s) == Len(s) >= 2 /\ Ch(s, 1) = "\"" /\ Ch(s, Len(s)) = "\""
CsdValue(s) == IF CsdQuoted(s) THEN SubSeq(s, 2, Len(s) - 1) ELSE s
CsdNotes(m) ==
  IF ~Present(m.headers, "clear-site-data") THEN <<>> ELSE
  LET q == OfMembers(m, "clear-site-data") f == "clear-site-data"
      un == SelectSeq(Vals(q), LAMBDA s : ~CsdQuoted(s) /\ s \in CsdKnown)
      good == SelectSeq(Vals(q), LAMBDA s : CsdQuoted(s) /\ CsdValue(s) \in CsdKnown) IN
  Cat([k \in 1..Len(q) |-> LET v == CsdValue(q[k].v) IN
    One(v = "", NoteKey("CSD_EMPTY", Off(q[k].at))) \o One(v # "" /\ v \notin CsdKnown, NoteKey(With("CSD_UNKNOWN_VALUE", v), Off(q[k].at)))])
  \o One(q = <<>>, OfField("CSD_EMPTY", f))
  \o One(un # <<>>, OfField(With("CSD_UNQUOTED", Join(un, ", ")), f))
  \o One(good # <<>>, OfField(With("CSD_PRESENT", Join([k \in 1..Len(good) |-> "`" \o CsdValue(good[k]) \o "`"], ", ")), f))

\* Alt-Svc: "clear" stands alone; anything else names an alternative
AltMembers(m) == SelectSeq(Vals(OfMembers(m, "alt-svc")), LAMBDA s : s = "clear" \/ Has(s, "="))
AltNotes(m) == LET q == AltMembers(m) IN One(Len(q) > 1 /\ "clear" \in SeqSet(q), OfField("ALTSVC_CLEAR_LIST", "alt-svc"))

\* seconds: [ok |-> may be used, neg |-> is an integer, but negative]
SecondsIn(s) ==
  LET neg == s # "" /\ Ch(s, 1) = "-" d == IF neg THEN From(s, 2) ELSE s
      int == IsDigits(d) /\ Len(d) <= 4300 IN
  [int |-> int, neg |-> int /\ neg /\ Canon(d) # "0", v |-> d]
LargeAge == "2147483648"
AgeNotes(m) ==
  IF ~Present(m.headers, "age") THEN <<>> ELSE
  LET a == SecondsIn(OneOf(m.headers, "age")) IN
  One(~a.int, OfField("AGE_NOT_INT", "age")) \o One(a.neg, OfField("AGE_NEGATIVE", "age")) \o One(a.int /\ ~a.neg /\ NumLess(LargeAge, a.v), OfField("AGE_LARGE", "age"))
CorsAgeNotes(m) ==
  IF ~Present(m.headers, "access-control-max-age") THEN <<>> ELSE
  LET a == SecondsIn(OneOf(m.headers, "access-control-max-age")) f == "access-control-max-age" IN
  One(~a.int, OfField("CORS_MAX_AGE_INVALID", f)) \o One(a.neg, OfField("CORS_MAX_AGE_NEGATIVE", f))

OtherVocab == ParamVocab \cup {"VIA_PRESENT", "SERVER_TOO_LONG", "SERVER_TIMING_MISSING_DUR", "SERVER_TIMING_BAD_PARAM", "SERVER_TIMING_MISSING_DESC", "PRAGMA_OTHER",
  "MAX_FORWARDS_IGNORED", "EXPECT_HTTP_1_0", "EXPECT_UNKNOWN", "MISSING_USER_AGENT", "CSD_EMPTY", "CSD_UNKNOWN_VALUE", "CSD_UNQUOTED", "CSD_PRESENT",
  "ALTSVC_CLEAR_LIST", "AGE_NOT_INT", "AGE_NEGATIVE", "AGE_LARGE", "CORS_MAX_AGE_INVALID", "CORS_MAX_AGE_NEGATIVE"}
OtherNotes(m) ==
  ViaNotes(m) \o (IF m.kind = "request" THEN PragmaNotes(m) \o ForwardsNotes(m) \o ExpectNotes(m) \o AgentNotes(m)
                  ELSE ServerNotes(m) \o TimingNotes(m) \o CsdNotes(m) \o AltNotes(m) \o AgeNotes(m) \o CorsAgeNotes(m))

\* how they are read
Both == {"via", "etag"}
Asked == {"pragma", "max-forwards", "expect", "cookie", "if-match", "if-none-match", "authorization", "proxy-authorization", "user-agent", "host"}
Answered == {"server", "server-timing", "clear-site-data", "alt-svc", "age", "access-control-max-age", "warning", "www-authenticate", "proxy-authenticate", "retry-after"}
OtherFields == Both \cup Asked \cup Answered
ReadIn(m) == Both \cup IF m.kind = "request" THEN Asked ELSE Answered
MembersText(q) == "[" \o Join([k \in 1..Len(q) |-> "s" \o q[k]], ",") \o "]"
TagText(s) == LET w == StartsWith(s, "W/") t == IF w THEN From(s, 3) ELSE s IN
  "(" \o (IF w THEN "True" ELSE "False") \o ",s" \o (IF CsdQuoted(t) THEN SubSeq(t, 2, Len(t) - 1) ELSE t) \o ")"
CookieText(s) ==
  LET ps == Split(s, ";") q == SelectSeq([k \in 1..Len(ps) |-> Strip(ps[k])], LAMBDA x : x # "")
      One1(x) == IF Has(x, "=") THEN "O{name:s" \o Before(x, "=") \o ",value:s" \o After(x, "=") \o "}" ELSE "O{name:s,value:s" \o x \o "}" IN
  "[" \o Join([k \in 1..Len(q) |-> One1(q[k])], ",") \o "]"
SecText(s) == LET a == SecondsIn(s) IN IF a.int /\ ~a.neg THEN "i" \o Canon(a.v) ELSE "None"
\* a parameter on its own belongs to the challenge before it
RECURSIVE ChallengesFrom(_, _, _)
ChallengesFrom(q, k, acc) ==
  IF k > Len(q) THEN acc
  ELSE IF acc # <<>> /\ FullMatch(AuthParam, q[k]) THEN ChallengesFrom(q, k + 1, [acc EXCEPT ![Len(acc)] = @ \o ", " \o q[k]])
  ELSE ChallengesFrom(q, k + 1, Append(acc, q[k]))
OtherParsed(m, f) ==
  LET q == Vals(OfMembers(m, f)) one == OneOf(m.headers, f) IN
  CASE f \in {"via", "server", "expect", "warning", "if-match", "if-none-match"} -> MembersText(q)
    [] f = "pragma" -> MembersText([k \in 1..Len(q) |-> Lower(q[k])])
    [] f = "server-timing" -> "[" \o Join([k \in 1..Len(q) |-> "(s" \o StName(q[k]) \o "," \o DictText(StParams(q[k]).d) \o ")"], ",") \o "]"
    [] f = "clear-site-data" -> MembersText([k \in 1..Len(q) |-> CsdValue(q[k])])
    [] f = "alt-svc" -> MembersText(AltMembers(m))
    [] f \in {"age", "access-control-max-age"} -> SecText(one)
    [] f = "etag" -> TagText(one)
    [] f = "cookie" -> LET ls == LinesOf(m.headers, "cookie") IN "[" \o Join([k \in 1..Len(ls) |-> CookieText(ls[k][2])], ",") \o "]"
    [] f \in Challenges -> MembersText(ChallengesFrom(q, 1, <<>>))
    [] OTHER -> "s" \o one
=============================================================================
