------------------------------ MODULE MC_SetCookie ------------------------------
(* Cookies of a few names with every sequence of a few attributes; dates in many arrangements; two cookies. *)
EXTENDS SetCookie
CONSTANTS Names, Av, MaxAv, Bases, Seps, Pairs, Av2
VARIABLES m, done, Notes
\* time, day, month and year, one of them odd
DatesList == {<<"10:18:14", "9", "Jun", "2021">>,
  <<"1:2:3", "9", "Jun", "2021">>,
  <<"24:00:00", "9", "Jun", "2021">>,
  <<"1:60:0", "9", "Jun", "2021">>,
  <<"1:2:60", "9", "Jun", "2021">>,
  <<"1:2", "9", "Jun", "2021">>,
  <<"1:2:345", "9", "Jun", "2021">>,
  <<"01:02:03x", "9", "Jun", "2021">>,
  <<"10:18:14", "09", "Jun", "2021">>,
  <<"10:18:14", "31", "Jun", "2021">>,
  <<"10:18:14", "30", "Jun", "2021">>,
  <<"10:18:14", "0", "Jun", "2021">>,
  <<"10:18:14", "32", "Jun", "2021">>,
  <<"10:18:14", "9th", "Jun", "2021">>,
  <<"10:18:14", "099", "Jun", "2021">>,
  <<"10:18:14", "9", "february", "2021">>,
  <<"10:18:14", "9", "DECx", "2021">>,
  <<"10:18:14", "9", "Ju", "2021">>,
  <<"10:18:14", "9", "Sept", "2021">>,
  <<"10:18:14", "9", "Jun", "21">>,
  <<"10:18:14", "9", "Jun", "70">>,
  <<"10:18:14", "9", "Jun", "69">>,
  <<"10:18:14", "9", "Jun", "1600">>,
  <<"10:18:14", "9", "Jun", "199">>,
  <<"10:18:14", "9", "Jun", "19945">>,
  <<"10:18:14", "9", "Jun", "2024y">>,
  <<"0:0:0", "29", "Feb", "2024">>,
  <<"0:0:0", "29", "Feb", "2023">>,
  <<"0:0:0", "29", "feb", "1900">>,
  <<"1:2:3", "31", "Jan", "31">>}
SeqsOf(X, k) == UNION {[1..n -> X] : n \in 0..k}
Resp(vs) == [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> [k \in 1..Len(vs) |-> <<"Set-Cookie", vs[k]>>], base_uri |-> "http://e.com/a/b", start |-> 1700000000]
Perm4 == {p \in [1..4 -> 1..4] : {p[k] : k \in 1..4} = 1..4}
DateOf(p, q, sep) == Join([k \in 1..4 |-> q[p[k]]], sep)
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \/ \E n \in Names, q \in SeqsOf(Av, MaxAv) : m = Resp(<<n \o "=v" \o Join([k \in 1..Len(q) |-> ";" \o q[k]], "")>>)
           \/ \E b \in Bases, x \in {"Path", "Path=", "Path=x", "Path=/y/"} : m = [Resp(<<"a=b;" \o x>>) EXCEPT !.base_uri = b]
           \/ \E p \in Perm4, q \in DatesList, s \in Seps : m = Resp(<<"a=b; Expires=" \o DateOf(p, q, s)>>)
           \/ \E x \in Pairs, y \in Pairs, a \in Av2, z \in Av2 : m = Resp(<<x \o a, y \o z>>)
Next == ~done /\ done' = TRUE /\ Notes' = SetCookieNotes(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], "SET_COOKIE_" \o n)
One0 == m.headers[1][2]
Single == done /\ Len(m.headers) = 1
\* what a user agent keeps: the last of each attribute, in a map
Kept(q) == [n \in {q[k][1] : k \in 1..Len(q)} |-> LastAttr(q, n)]
\* prefixes promise exactly what the cookie then has
Promises == Single /\ ScOk(One0) => LET k == Kept(Attrs(One0, m.base_uri)) n == Lower(ScPair(One0).n)
                                       host == StartsWith(n, "__host-") sec == host \/ StartsWith(n, "__secure-") IN
  (~HasN("PREFIX_")) <=> ((sec => "Secure" \in DOMAIN k) /\ (host => "Path" \in DOMAIN k /\ k["Path"] = "s/" /\ "Domain" \notin DOMAIN k))
\* adding an attribute that was already there doesn't change what is kept, only that it repeats
Idempotent == Single /\ ScAvs(One0) # <<>> => LET avs == ScAvs(One0) a == avs[Len(avs)] s2 == One0 \o ";" \o a.n \o "=" \o a.v IN
  Kept(Attrs(s2, m.base_uri)) = Kept(Attrs(One0, m.base_uri)) /\ SeqSet(ScRepeats("", ScAvs(s2))) \ SeqSet(ScRepeats("", avs)) \subseteq {Named("SET_COOKIE_ATTRIBUTE_DUP", <<"", a.n>>)}
\* a hardened cookie is never reported as insecure
HardenedSafe == done => (HasN("HARDENED") /\ Len(m.headers) = 1 => ~HasN("NOT_SECURE") /\ ~HasN("PARTITIONED_NO_SECURE") /\ ~HasN("PREFIX_SECURE"))
\* Expires counts only without Max-Age
MaxAgeWins == Single /\ ScOk(One0) => LET k == Kept(Attrs(One0, m.base_uri)) IN
  "Max-Age" \in DOMAIN k => (HasN("LIFETIME") <=> ~StartsWith(k["Max-Age"], "i-") /\ NumLess("34560000", From(k["Max-Age"], 2)))
\* the order of a date's parts matters only between the day and a year that could be one
DateValue(s) == CookieDate(After(s, "="))
HttpDatesToo == \A h \in {"00:00:00", "23:59:59"}, d \in {"01", "28", "31"}, mo \in {"Jan", "Feb", "Dec"}, y \in {"1970", "2000", "1999", "9999", "1601"} :
  LET s == "Mon, " \o d \o " " \o mo \o " " \o y \o " " \o h \o " GMT" c == CookieDate(s) v == DateVal(s) IN
  IF mo = "Feb" /\ d = "31" THEN c.why # "" ELSE c.why = "" /\ c.days = v.days /\ c.secs = v.secs
DatesAgree == ~done /\ m.headers[1][2] = "a=v" => HttpDatesToo
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
