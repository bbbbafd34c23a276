------------------------------ MODULE SfFields ------------------------------
(***************************************************************************)
(* The fields defined as Structured Fields: what each is read as, and what *)
(* its own definition says about its members.                              *)
(***************************************************************************)
EXTENDS Conneg, StructuredFields

SfKind == [x \in {"accept-ch", "accept-query", "cache-group-invalidation", "cache-groups", "cache-status", "proxy-status", "speculation-rules"} |-> "list"]
       @@ [x \in {"available-dictionary", "deprecation", "cross-origin-embedder-policy", "cross-origin-opener-policy",
                  "cross-origin-embedder-policy-report-only", "cross-origin-opener-policy-report-only"} |-> "item"]
       @@ [x \in {"cdn-cache-control", "permissions-policy", "reporting-endpoints", "use-as-dictionary"} |-> "dictionary"]
SfNames(m) == IF m.kind = "request" THEN {"available-dictionary"} ELSE DOMAIN SfKind \ {"available-dictionary"}
SfHere(m) == {f \in SfNames(m) : Present(m.headers, f)}
SfRead(m, f) == SfField(m.headers, f, SfKind[f])
SfOk(m, f) == f \in SfNames(m) /\ Present(m.headers, f) /\ SfRead(m, f).ok
On(f, q) == [k \in 1..Len(q) |-> q[k] \o "@field-" \o f]

IsTok(v) == Ty(v) = "t"
IsStr(v) == Ty(v) = "s"
IsInt(v) == Ty(v) = "i"
Text1(v) == From(v, 2)
TypeName == ("i" :> "int") @@ ("n" :> "Decimal") @@ ("t" :> "Token") @@ ("b" :> "bytes") @@ ("@" :> "datetime") @@ ("p" :> "DisplayString") @@ ("B" :> "bool") @@ ("s" :> "str") @@ ("(" :> "list")
FoundType(x) == TypeName[IF x.v = "(" THEN "(" ELSE Ty(x.v)]
\* the kinds of value among q that aren't strings, in the order of their names
SortedNames == <<"Decimal", "DisplayString", "Token", "bool", "bytes", "datetime", "int", "list">>
OtherTypes(q) == LET f == {FoundType(q[k]) : k \in 1..Len(q)} IN Join(SelectSeq(SortedNames, LAMBDA x : x \in f), ", ")
AnyIs(q, P(_)) == \E k \in 1..Len(q) : P(q[k].v)
FromReq(m) == HasF(m, "related") /\ m.related.kind = "request"

\* Accept-CH: a list of tokens, over HTTPS, each in Vary when the response may be stored
NotTok(v) == ~IsTok(v)
PlainHttp(u) == StartsWith(Lower(u), "http:")
ChMissing(m, q) == SelectSeq([k \in 1..Len(q) |-> IF IsTok(q[k].v) THEN Text1(q[k].v) ELSE ""],
                             LAMBDA x : x # "" /\ Lower(x) \notin SeqSet(VaryNames(m)))
ChNotes(m, stored) == IF ~SfOk(m, "accept-ch") THEN <<>> ELSE LET q == SfRead(m, "accept-ch").q IN
  One(AnyIs(q, NotTok), "ACCEPT_CH_BAD_TYPE")
  \o (IF ~FromReq(m) THEN <<>> ELSE One(PlainHttp(m.related.top[2]), "ACCEPT_CH_IN_PLAIN_HTTP"))
  \o One(stored /\ ChMissing(m, q) # <<>>, "ACCEPT_CH_MISSING_VARY")

\* Accept-Query: media ranges, as tokens or strings
QueryOne(v) == LET t == Lower(Text1(v)) n == SelectSeq(<<Before(t, "/"), After(t, "/")>>, LAMBDA x : x # "*") IN
  IF ~(IsTok(v) \/ IsStr(v)) THEN <<"ACCEPT_QUERY_BAD_TYPE">>
  ELSE IF ~TypeUsable(t, TRUE) \/ Len(TypeNames(t)) < Len(n) THEN <<"ACCEPT_QUERY_BAD_SYNTAX">>
  ELSE TypeNameNotes(t, TRUE)
QueryNotes(m) == IF ~SfOk(m, "accept-query") THEN <<>> ELSE LET q == SfRead(m, "accept-query").q IN Cat([k \in 1..Len(q) |-> QueryOne(q[k].v)])
LowIt(x) == IF IsTok(x.v) \/ IsStr(x.v) THEN [x EXCEPT !.v = Ch(@, 1) \o Lower(Text1(@))] ELSE x

\* Cache-Groups, Cache-Group-Invalidation: lists of strings; only unsafe requests invalidate
NotStr(v) == ~IsStr(v)
GroupNotes(m) == One(SfOk(m, "cache-groups") /\ AnyIs(SfRead(m, "cache-groups").q, NotStr), "CACHE_GROUPS_BAD_TYPE(" \o OtherTypes(SfRead(m, "cache-groups").q) \o ")")
SafeNames == {"GET", "HEAD", "OPTIONS", "TRACE"}
InvalNotes(m) == LET f == "cache-group-invalidation" IN
  IF ~SfOk(m, f) THEN <<>>
  ELSE One(AnyIs(SfRead(m, f).q, NotStr), "CACHE_GROUP_INVALIDATION_BAD_TYPE(" \o OtherTypes(SfRead(m, f).q) \o ")")
       \o (IF ~FromReq(m) THEN <<>> ELSE One(m.related.top[1] \in SafeNames, "CACHE_GROUP_INVALIDATION_IGNORED"))

\* Cache-Status (RFC 9211) and Proxy-Status (RFC 9209): what each parameter may be
FwdWhy == {"tbypass", "tmethod", "turi-miss", "tvary-miss", "tmiss", "trequest", "tstale", "tpartial"}
CacheParam(n, v) ==
  CASE n \in {"hit", "stored", "collapsed"} -> Ty(v) = "B"
    [] n = "fwd" -> v \in FwdWhy
    [] n \in {"fwd-status", "ttl"} -> IsInt(v)
    [] n = "key" -> IsStr(v)
    [] OTHER -> IsStr(v) \/ IsTok(v)
ProxyParam(n, v) ==
  CASE n = "error" -> IsTok(v)
    [] n = "next-protocol" -> IsTok(v) \/ Ty(v) = "b"
    [] n = "received-status" -> IsInt(v)
    [] OTHER -> IsStr(v) \/ IsTok(v)
CacheKnows == {"hit", "fwd", "fwd-status", "ttl", "stored", "collapsed", "key", "detail"}
ProxyKnows == {"error", "next-hop", "next-protocol", "received-status", "details"}
ParamNote(p, name, known, Good1(_, _)) ==
  IF p.k \notin known THEN <<name \o "_UNKNOWN_PARAM(" \o p.k \o ")">> ELSE One(~Good1(p.k, p.v), name \o "_BAD_PARAM_VAL(" \o p.k \o ")")
StatusNotes(m, f, name, known, Good1(_, _)) ==
  IF ~SfOk(m, f) THEN <<>> ELSE LET q == SfRead(m, f).q IN
  One(q # <<>>, name) \o Cat([k \in 1..Len(q) |-> Cat([j \in 1..Len(q[k].ps) |-> ParamNote(q[k].ps[j], name, known, Good1)])])

\* Deprecation (RFC 9745): a Date, in the past or to come when the time is known
ToComeAt(v, m) == LET d == Text1(v) IN Ch(d, 1) # "-" /\ NumLess(ToString(m.start), d)
DepNotes(m) == IF ~SfOk(m, "deprecation") THEN <<>> ELSE LET v == SfRead(m, "deprecation").q[1].v IN
  IF Ty(v) = "@" THEN IF ~HasF(m, "start") THEN <<>>
                      ELSE IF m.start = 0 THEN <<>> ELSE IF ToComeAt(v, m) THEN <<"DEPRECATION_FUTURE">> ELSE <<"DEPRECATION_PAST">>
  ELSE IF v = "True" THEN <<"DEPRECATION_TRUE">> ELSE <<"DEPRECATION_BAD_TYPE(" \o (IF v = "False" THEN "Boolean False" ELSE FoundType(SfRead(m, "deprecation").q[1])) \o ")">>

\* Permissions-Policy: what is wrong is under the note that there is a policy
Sensitive == {"camera", "microphone", "geolocation", "payment", "usb", "serial", "magnetometer", "accelerometer", "gyroscope", "screen-wake-lock"}
AllowItem(v, f) ==
  IF IsTok(v) THEN One(Text1(v) \notin {"self", "src"}, "PERMISSIONS_POLICY_UNKNOWN_TOKEN(" \o Text1(v) \o "," \o f \o ")")
  ELSE IF IsStr(v) THEN One(Text1(v) \in {"self", "src", "*", "none"}, "PERMISSIONS_POLICY_QUOTED_KEYWORD(" \o Text1(v) \o "," \o f \o ")")
  ELSE <<"PERMISSIONS_POLICY_INVALID_ITEM_TYPE(" \o f \o ")">>
Feature(f, x) ==
  IF x.v = "(" THEN Cat([k \in 1..Len(x.il) |-> AllowItem(x.il[k].v, f)])
  ELSE IF x.v # "t*" THEN <<"PERMISSIONS_POLICY_INVALID_VALUE(" \o f \o ")">>
  ELSE One(f \in Sensitive, "PERMISSIONS_POLICY_WILDCARD(" \o f \o ")")
PermHere(m) == SfOk(m, "permissions-policy") /\ SfRead(m, "permissions-policy").q # <<>>
PermSubs(m) == IF ~PermHere(m) THEN <<>> ELSE LET q == SfRead(m, "permissions-policy").q IN Cat([k \in 1..Len(q) |-> Feature(q[k].k, q[k].v)])
PermNotes(m) == One(PermHere(m), "PERMISSIONS_POLICY_PRESENT")

\* what every structured field is read as
SfText(m, f) ==
  LET r == SfRead(m, f) IN
  FlatSf(IF f = "accept-query" THEN [r EXCEPT !.q = [k \in 1..Len(@) |-> LowIt(@[k])]] ELSE r, SfKind[f])
SfSyntax(m) == LET q == SetSeq(SfHere(m)) IN Cat([k \in 1..Len(q) |-> SfNotes(SfRead(m, q[k]), q[k])])
SfOwnVocab == {"ACCEPT_CH_BAD_TYPE", "ACCEPT_CH_IN_PLAIN_HTTP", "ACCEPT_CH_MISSING_VARY", "ACCEPT_QUERY_BAD_TYPE", "ACCEPT_QUERY_BAD_SYNTAX", "MEDIA_TYPE_LONG_NAME",
  "MEDIA_TYPE_BAD_NAME", "CACHE_GROUPS_BAD_TYPE", "CACHE_GROUP_INVALIDATION_BAD_TYPE", "CACHE_GROUP_INVALIDATION_IGNORED", "CACHE_STATUS", "CACHE_STATUS_UNKNOWN_PARAM",
  "CACHE_STATUS_BAD_PARAM_VAL", "PROXY_STATUS", "PROXY_STATUS_UNKNOWN_PARAM", "PROXY_STATUS_BAD_PARAM_VAL", "DEPRECATION_FUTURE", "DEPRECATION_PAST", "DEPRECATION_TRUE",
  "DEPRECATION_BAD_TYPE", "PERMISSIONS_POLICY_PRESENT"}
SfOwnNotes(m, stored) ==
  On("accept-ch", ChNotes(m, stored)) \o On("accept-query", QueryNotes(m)) \o On("cache-groups", GroupNotes(m)) \o On("cache-group-invalidation", InvalNotes(m))
  \o On("cache-status", StatusNotes(m, "cache-status", "CACHE_STATUS", CacheKnows, CacheParam))
  \o On("proxy-status", StatusNotes(m, "proxy-status", "PROXY_STATUS", ProxyKnows, ProxyParam))
  \o On("deprecation", DepNotes(m)) \o On("permissions-policy", PermNotes(m))

\* compression dictionaries (RFC 9842)
DictBad(n, x, want) == "USE_AS_DICTIONARY_BAD_TYPE(" \o n \o "," \o want \o "," \o (IF x.v = "(" THEN "Inner List" ELSE FoundType(x)) \o ")"
DictOne(n, x) ==
  CASE n \in {"match", "id"} -> One(~IsStr(x.v), DictBad(n, x, "str"))
    [] n = "type" -> One(~IsTok(x.v), DictBad(n, x, "Token"))
    [] n = "ttl" -> One(~IsInt(x.v), DictBad(n, x, "int"))
    [] n = "match-dest" -> One(~IsStr(x.v) /\ ~(x.v = "(" /\ \A k \in 1..Len(x.il) : IsStr(x.il[k].v)), "USE_AS_DICTIONARY_BAD_MATCH_DEST")
    [] OTHER -> <<>>
UseNotes(m) == IF ~SfOk(m, "use-as-dictionary") THEN <<>> ELSE LET q == SfRead(m, "use-as-dictionary").q IN Cat([k \in 1..Len(q) |-> DictOne(q[k].k, q[k].v)])
DictCodings == {"dcb", "dcz"}
AvailNotes(m) == IF ~SfOk(m, "available-dictionary") THEN <<>>
  ELSE One(Ty(SfRead(m, "available-dictionary").q[1].v) # "b", "AVAILABLE_DICTIONARY_BAD_TYPE(" \o FoundType(SfRead(m, "available-dictionary").q[1]) \o ")")
       \o One(~\E d \in DictCodings : Accepted(d, Members(m.headers, "accept-encoding")), "AVAILABLE_DICTIONARY_MISSING_AE")
CodedNotes(m, stored) == One(m.kind = "response" /\ stored /\ SeqSet(Names(Members(m.headers, "content-encoding"))) \cap DictCodings # {}
                             /\ "available-dictionary" \notin SeqSet(VaryNames(m)), "DICTIONARY_COMPRESSED_MISSING_VARY")
DictVocab == {"USE_AS_DICTIONARY_BAD_TYPE", "USE_AS_DICTIONARY_BAD_MATCH_DEST", "AVAILABLE_DICTIONARY_BAD_TYPE", "AVAILABLE_DICTIONARY_MISSING_AE", "DICTIONARY_COMPRESSED_MISSING_VARY"}
DictNotes(m, stored) == On("use-as-dictionary", UseNotes(m)) \o On("available-dictionary", AvailNotes(m)) \o On("content-encoding", CodedNotes(m, stored))
=============================================================================
