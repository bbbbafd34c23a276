------------------------------ MODULE SetCookie ------------------------------
(***************************************************************************)
(* Set-Cookie (RFC 6265, section 5): one cookie per line, its attributes,  *)
(* its Expires date, and what is reported of it.                           *)
(***************************************************************************)
EXTENDS Fields, DateRules, Uri

ScAv(p) == [n |-> Strip(Before(p, "=")), v |-> IF Has(p, "=") THEN Strip(After(p, "=")) ELSE ""]
\* the pieces between semicolons; nothing follows a final one
ScPieces(s) == IF ~Has(s, ";") THEN <<s>> ELSE LET q == Split(s, ";") IN IF Len(q) > 1 /\ q[Len(q)] = "" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
ScPair(s) == LET p == Before(s, ";") IN IF Has(p, "=") THEN [n |-> Strip(Before(p, "=")), v |-> Strip(After(p, "="))] ELSE [n |-> "", v |-> Strip(p)]
ScAvs(s) == LET q == ScPieces(s) IN [k \in 1..(Len(q) - 1) |-> ScAv(q[k + 1])] \o <<>>
ScOk(s) == LET p == ScPair(s) IN p.n # "" \/ p.v # ""

\* dates, section 5.1.1: tokens between delimiters, each taken for the first part it can be
CdDelim == {"\t"} \cup CharRange(32, 47) \cup CharRange(59, 64) \cup CharRange(91, 96) \cup CharRange(123, 126)
D12 == R(D1, 1, 2)
CdTime == S(<<D12, L(":"), D12, L(":"), D12>>)
CdYear == R(D1, 2, 4)
\* the length of the part a token begins with, if no digit follows it
CdLen(g, t) == LET E == {k \in Ends(g, t, {1}) : k > Len(t) \/ Ch(t, k) \notin Digit} IN IF E = {} THEN 0 ELSE (CHOOSE k \in E : TRUE) - 1
IsMonth(t) == Len(t) >= 3 /\ Lower(SubSeq(t, 1, 3)) \in DOMAIN MonthNo
RECURSIVE CdTokens(_, _, _, _)
CdTokens(s, b, k, acc) == IF k > Len(s) THEN Append(acc, From(s, b))
  ELSE IF Ch(s, k) \in CdDelim THEN CdTokens(s, k + 1, k + 1, Append(acc, SubSeq(s, b, k - 1))) ELSE CdTokens(s, b, k + 1, acc)
CdStep(st, t) ==
  IF st.t = "" /\ CdLen(CdTime, t) > 0 THEN [st EXCEPT !.t = SubSeq(t, 1, CdLen(CdTime, t))]
  ELSE IF st.d = "" /\ CdLen(D12, t) > 0 THEN [st EXCEPT !.d = SubSeq(t, 1, CdLen(D12, t))]
  ELSE IF st.m = "" /\ IsMonth(t) THEN [st EXCEPT !.m = Lower(SubSeq(t, 1, 3))]
  ELSE IF st.y = "" /\ CdLen(CdYear, t) > 0 THEN [st EXCEPT !.y = SubSeq(t, 1, CdLen(CdYear, t))]
  ELSE st
RECURSIVE CdFold(_, _, _)
CdFold(q, k, st) == IF k > Len(q) THEN st ELSE CdFold(q, k + 1, CdStep(st, q[k]))
CdParts(s) == CdFold(CdTokens(s, 1, 1, <<>>), 1, [t |-> "", d |-> "", m |-> "", y |-> ""])
CdFullYear(y) == IF y >= 70 /\ y <= 99 THEN y + 1900 ELSE IF y <= 69 THEN y + 2000 ELSE y
DaysIn(y, mo) == DaysTo(IF mo = 12 THEN y + 1 ELSE y, IF mo = 12 THEN 1 ELSE mo + 1) - DaysTo(y, mo)
\* [why |-> "", days, secs], or what is wrong with it
CookieDate(s) ==
  LET p == CdParts(s) miss == One(p.t = "", "time") \o One(p.d = "", "day") \o One(p.m = "", "month") \o One(p.y = "", "year") IN
  IF miss # <<>> THEN [why |-> "didn't have a: " \o Join(miss, ","), days |-> 0, secs |-> 0]
  ELSE LET y == CdFullYear(Num(p.y)) mo == MonthNo[p.m] d == Num(p.d) q == Split(p.t, ":")
           h == Num(q[1]) mi == Num(q[2]) se == Num(q[3])
           Out(n, what) == [why |-> ToString(n) \o " is out of range for " \o what, days |-> 0, secs |-> 0] IN
       IF d < 1 \/ d > 31 THEN Out(d, "day_of_month")
       ELSE IF y < 1601 THEN Out(y, "year")
       ELSE IF h > 23 THEN Out(h, "hour")
       ELSE IF mi > 59 THEN Out(mi, "minute")
       ELSE IF se > 59 THEN Out(se, "second")
       ELSE IF d > DaysIn(y, mo) THEN Out(d, "day_of_month")
       ELSE [why |-> "", days |-> DaysTo(y, mo) + d - 1, secs |-> h * 3600 + mi * 60 + se]

\* each attribute: what it comes to (one pair or nothing) and what is said of it
MaDigits(v) == IF StartsWith(v, "-") THEN From(v, 2) ELSE v
DefaultPath(base) == LET p == Parts(base).path IN
  IF ~StartsWith(p, "/") \/ Len(Split(p, "/")) < 3 THEN "/" ELSE SubSeq(UpToLast(p), 1, Len(UpToLast(p)) - 1)
Site(v) == LET l == Lower(v) IN IF l \in {"lax", ""} THEN "Lax" ELSE IF l = "strict" THEN "Strict" ELSE IF l = "none" THEN "None" ELSE ""
Taken(n, v, base) ==
  CASE n = "expires" -> LET d == CookieDate(v) IN IF d.why = "" THEN << <<"Expires", EpochText(d)>> >> ELSE <<>>
    [] n = "max-age" -> IF IsDigits(MaDigits(v)) THEN << <<"Max-Age", "i" \o (IF v # MaDigits(v) /\ Canon(MaDigits(v)) # "0" THEN "-" ELSE "") \o Canon(MaDigits(v))>> >> ELSE <<>>
    [] n = "domain" -> IF v = "" THEN <<>> ELSE << <<"Domain", "s" \o Lower(IF StartsWith(v, ".") THEN From(v, 2) ELSE v)>> >>
    [] n = "path" -> << <<"Path", "s" \o (IF StartsWith(v, "/") THEN v ELSE DefaultPath(base))>> >>
    [] n = "secure" -> << <<"Secure", "s">> >>
    [] n = "httponly" -> << <<"HttpOnly", "s">> >>
    [] n = "partitioned" -> << <<"Partitioned", "s">> >>
    [] n = "samesite" -> IF Site(v) = "" THEN <<>> ELSE << <<"SameSite", "s" \o Site(v)>> >>
    [] OTHER -> <<>>
Named(n, q) == n \o "(" \o Join(q, ",") \o ")"
SaidOf(c, a) == LET n == Lower(a.n) v == a.v IN
  CASE n = "expires" -> LET d == CookieDate(v) IN One(d.why # "", Named("SET_COOKIE_BAD_DATE", <<c, d.why>>))
    [] n = "max-age" -> IF v = "" THEN <<Named("SET_COOKIE_EMPTY_MAX_AGE", <<c>>)>>
                        ELSE One(Ch(v, 1) = "0" /\ Len(v) > 1, Named("SET_COOKIE_LEADING_ZERO_MAX_AGE", <<c>>)) \o One(~IsDigits(MaDigits(v)), Named("SET_COOKIE_NON_DIGIT_MAX_AGE", <<c>>))
    [] n = "domain" -> One(v = "", Named("SET_COOKIE_EMPTY_DOMAIN", <<c>>))
    [] n = "samesite" -> One(Site(v) = "", Named("SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE", <<c, a.n, v>>))
    [] n \in {"path", "secure", "httponly", "partitioned"} -> <<>>
    [] n = "priority" -> <<Named("SET_COOKIE_PRIORITY", <<c>>)>>
    [] n = "version" -> <<Named("SET_COOKIE_VERSION", <<c>>)>>
    [] OTHER -> <<Named("SET_COOKIE_UNKNOWN_ATTRIBUTE", <<c, a.n>>)>>
AttrsOf(avs, base) == Cat([k \in 1..Len(avs) |-> Taken(Lower(avs[k].n), avs[k].v, base)])
Attrs(s, base) == AttrsOf(ScAvs(s), base)
LastAttr(q, n) == LET I == {k \in 1..Len(q) : q[k][1] = n} IN IF I = {} THEN "" ELSE q[CHOOSE k \in I : \A j \in I : j <= k][2]
\* attributes that repeat an earlier one, whatever the letter case
ScRepeats(c, avs) == LET low == [k \in 1..Len(avs) |-> Lower(avs[k].n)] \o <<>> IN Cat([k \in 1..Len(avs) |-> One(\E j \in 1..(k - 1) : low[j] = low[k], Named("SET_COOKIE_ATTRIBUTE_DUP", <<c, avs[k].n>>))])
Thousands(n) == IF n < 1000 THEN ToString(n) ELSE ToString(n \div 1000) \o "," \o SubSeq(ToString(1000 + (n % 1000)), 2, 4)
\* Max-Age decides before Expires, and the last of each; lifetimes beyond 400 days
Days400 == 34560000
FarLife == 1000000000
LastDate(avs) == LET I == {k \in 1..Len(avs) : Lower(avs[k].n) = "expires" /\ CookieDate(avs[k].v).why = ""} IN CookieDate(avs[CHOOSE k \in I : \A j \in I : j <= k].v)
Life(q, avs, st) ==       \* saturating
  IF LastAttr(q, "Max-Age") # "" THEN LET d == From(LastAttr(q, "Max-Age"), 2) IN IF StartsWith(d, "-") THEN 0 ELSE NumCap(d)
  ELSE IF LastAttr(q, "Expires") # "" /\ st # 0 THEN Diff(LastDate(avs), At0(st)) ELSE 0
LifeText(n) == IF n >= FarLife THEN "far" ELSE Duration(n)
LowPrefix(c, p) == StartsWith(Lower(c), p)
CookieNotes(s, base, st) ==
  IF ~ScOk(s) THEN <<"SET_COOKIE_NO_NAME">>
  ELSE LET p == ScPair(s) c == p.n avs == ScAvs(s) q == AttrsOf(avs, base) secure == LastAttr(q, "Secure") # "" life == Life(q, avs, st) IN
  One(Len(c) + Len(p.v) > 4096, Named("SET_COOKIE_TOO_LARGE", <<c>>))
  \o One(Len(p.v) > 128, Named("SET_COOKIE_VALUE_TOO_LARGE", <<c, Thousands(Len(p.v)) \o " bytes">>))
  \o ScRepeats(c, avs)
  \o Cat([k \in 1..Len(avs) |-> SaidOf(c, avs[k])])
  \o One(~secure /\ LastAttr(q, "SameSite") = "sNone", Named("SET_COOKIE_NOT_SECURE", <<c>>))
  \o One(~secure /\ LastAttr(q, "Partitioned") # "", Named("SET_COOKIE_PARTITIONED_NO_SECURE", <<c>>))
  \o One(life > Days400, Named("SET_COOKIE_LIFETIME_TOO_LONG", <<c, LifeText(life)>>))
  \o One(~secure /\ (LowPrefix(c, "__secure-") \/ LowPrefix(c, "__host-")), Named("SET_COOKIE_PREFIX_SECURE_MISSING", <<c>>))
  \o One(LowPrefix(c, "__host-") /\ LastAttr(q, "Path") # "s/", Named("SET_COOKIE_PREFIX_HOST_BAD_PATH", <<c>>))
  \o One(LowPrefix(c, "__host-") /\ LastAttr(q, "Domain") # "", Named("SET_COOKIE_PREFIX_HOST_BAD_DOMAIN", <<c>>))
Hardened(s, base) == LET q == Attrs(s, base) IN
  LastAttr(q, "Secure") # "" /\ LastAttr(q, "HttpOnly") # "" /\ LastAttr(q, "SameSite") \in {"sLax", "sStrict"}

\* the cookies of a response
Cookies(m) == LET ls == LinesOf(m.headers, "set-cookie") IN [k \in 1..Len(ls) |-> <<ls[k][1], Strip(ls[k][2])>>] \o <<>>
GoodCookies(m) == SelectSeq(Cookies(m), LAMBDA x : ScOk(x[2]))
BaseOf(m) == IF HasF(m, "base_uri") THEN m.base_uri ELSE ""
StartOf(m) == IF HasF(m, "start") THEN m.start ELSE 0
RECURSIVE StrLess(_, _, _)
StrLess(a, b, k) == IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
  ELSE IF Ch(a, k) = Ch(b, k) THEN StrLess(a, b, k + 1) ELSE CodeOf(Ch(a, k)) < CodeOf(Ch(b, k))
RECURSIVE Sorted(_, _)
Sorted(X, acc) == IF X = {} THEN acc ELSE LET x == CHOOSE a \in X : \A b \in X : b = a \/ StrLess(a, b, 1) IN Sorted(X \ {x}, Append(acc, x))
DupNames(q) == {ScPair(q[k][2]).n : k \in {j \in 1..Len(q) : \E h \in 1..(j - 1) : ScPair(q[h][2]).n = ScPair(q[j][2]).n}}
Quiet(s) == Join(Words(Join(Split(s, "`"), "")), " ")      \* whitespace in what is shown as code is not kept
SetCookieNotes(m) ==
  IF m.kind # "response" \/ Cookies(m) = <<>> THEN <<>>
  ELSE LET q == Cookies(m) g == GoodCookies(m) b == BaseOf(m) h == SelectSeq(g, LAMBDA x : Hardened(x[2], b)) IN
    Cat([k \in 1..Len(q) |-> LET n == CookieNotes(q[k][2], b, StartOf(m)) IN [j \in 1..Len(n) |-> NoteKey(n[j], Off(q[k][1]))]])
    \o One(DupNames(g) # {}, NoteKey(Named("SET_COOKIE_NAME_DUP", <<Join(Sorted(DupNames(g), <<>>), ", ")>>), "field-set-cookie"))
    \o One(h # <<>>, NoteKey(Named("SET_COOKIE_HARDENED", <<Join([k \in 1..Len(h) |-> "`" \o Quiet(ScPair(h[k][2]).n) \o "`"], ", ")>>), "field-set-cookie"))
CookieText(s, base) == LET p == ScPair(s) q == Attrs(s, base) IN
  "(s" \o p.n \o ",s" \o p.v \o ",[" \o Join([k \in 1..Len(q) |-> "(s" \o q[k][1] \o "," \o q[k][2] \o ")"], ",") \o "])"
SetCookieParsed(m) == LET g == GoodCookies(m) IN "[" \o Join([k \in 1..Len(g) |-> CookieText(g[k][2], BaseOf(m))], ",") \o "]"
SetCookieVocab == {"SET_COOKIE_" \o n : n \in {"NO_NAME", "BAD_DATE", "EMPTY_MAX_AGE", "LEADING_ZERO_MAX_AGE", "NON_DIGIT_MAX_AGE", "EMPTY_DOMAIN", "NOT_SECURE", "UNKNOWN_ATTRIBUTE", "PRIORITY", "VERSION",
  "UNKNOWN_ATTRIBUTE_VALUE", "PARTITIONED_NO_SECURE", "TOO_LARGE", "VALUE_TOO_LARGE", "LIFETIME_TOO_LONG", "PREFIX_SECURE_MISSING", "PREFIX_HOST_BAD_DOMAIN", "PREFIX_HOST_BAD_PATH", "ATTRIBUTE_DUP", "HARDENED", "NAME_DUP"}}
=============================================================================
