------------------------------ MODULE MC_SfFields ------------------------------
(* Structured Fields made of every sequence of a few pieces; members of every field defined so. *)
EXTENDS SfFields
CONSTANTS Pieces, MaxPieces, Kinds, Values, Features, ParamNames, Statuses, Methods, Uris, VaryOf, CcOf, Hints
\* (strings in a configuration file have no escapes)
PiecesIn == {"a", "1", "\"", "(", ")", ";", "=", ",", " ", "?1", "-", ".", "\\", "*", "@2", "A"}
ValuesIn == {"1", "-0", "1.5", "?1", "?0", "a", "*", "\"a\"", "\"*\"", ":YQ==:", "@1700000000", "@1700000001", "%\"a\"", "self", "uri-miss", "MISS", "miss", "\"self\"", "text/html", "\"*/x\"", "(a \"b\")", "()", ""}
HintsIn == {"DPR", "dpr, Width", "\"DPR\"", "(DPR)", ""}
VARIABLES m, done, Notes, Subs1
Resp(h) == [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> h]
Req(me, u) == [kind |-> "request", top |-> <<me, u, "HTTP/1.1">>, headers |-> <<>>]
SeqsOf(X, k) == UNION {[1..n -> X] : n \in 1..k}
Init == /\ done = FALSE /\ Notes = <<>> /\ Subs1 = <<>>
        /\ \/ \E f \in Kinds, q \in SeqsOf(Pieces, MaxPieces) : m = Resp(<< <<f, Join(q, "")>> >>)
           \/ \E f \in {"cache-groups", "accept-ch", "accept-query", "cache-group-invalidation", "deprecation"}, v \in Values : m = Resp(<< <<f, v>> >>) @@ [start |-> 1700000000]
           \/ \E f \in Statuses, p \in ParamNames, v \in Values, w \in Values : m = Resp(<< <<f, "x;" \o p \o (IF v = "" THEN "" ELSE "=" \o v)>>, <<f, "\"y\";a;" \o p \o (IF w = "" THEN "" ELSE "=" \o w)>> >>)
           \/ \E k \in Features, v \in Values : m = Resp(<< <<"permissions-policy", k \o "=" \o v>> >>)
           \/ \E k \in Features, v \in Values, w \in Values : m = Resp(<< <<"permissions-policy", k \o "=(" \o v \o " " \o w \o ")">> >>)
           \/ \E me \in Methods, u \in Uris, v \in Values : m = Resp(<< <<"cache-group-invalidation", v>>, <<"Accept-CH", v>> >>) @@ [related |-> Req(me, u)]
           \/ \E a \in Hints, b \in Hints, v \in VaryOf, cc \in CcOf : m = Resp(<< <<"cache-control", cc>>, <<"accept-ch", a>>, <<"accept-ch", b>>, <<"vary", v>> >>)
Next == ~done /\ done' = TRUE /\ Notes' = SfSyntax(m) \o SfOwnNotes(m, TRUE) /\ Subs1' = PermSubs(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes, Subs1>>
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], n)

\* what is read, written out again, reads the same
RECURSIVE Escape(_, _, _)
Escape(s, k, acc) == IF k > Len(s) THEN acc ELSE Escape(s, k + 1, acc \o (IF Ch(s, k) \in {"\"", "\\"} THEN "\\" ELSE "") \o Ch(s, k))
Ser(v) == CASE v = "True" -> "?1" [] v = "False" -> "?0" [] Ch(v, 1) = "s" -> "\"" \o Escape(From(v, 2), 1, "") \o "\"" [] Ch(v, 1) = "@" -> v [] OTHER -> From(v, 2)
RECURSIVE SerPs(_)
SerPs(ps) == IF ps = <<>> THEN "" ELSE ";" \o ps[1].k \o (IF ps[1].v = "True" THEN "" ELSE "=" \o Ser(ps[1].v)) \o SerPs(Tail(ps))
SerItem(x) == Ser(x.v) \o SerPs(x.ps)
SerMember(x) == IF x.v = "(" THEN "(" \o Join([k \in 1..Len(x.il) |-> SerItem(x.il[k])], " ") \o ")" \o SerPs(x.ps) ELSE SerItem(x)
Plain(x) == x.v # "" /\ Ty(x.v) \notin {"b", "p"} /\ (\A k \in 1..Len(x.ps) : Ty(x.ps[k].v) \notin {"b", "p"}) /\ \A k \in 1..Len(x.il) : Ty(x.il[k].v) \notin {"b", "p"}
SerAll(r, kind) == IF kind = "dictionary" THEN Join([k \in 1..Len(r.q) |-> r.q[k].k \o "=" \o SerMember(r.q[k].v)], ", ")
                   ELSE Join([k \in 1..Len(r.q) |-> SerMember(r.q[k])], ", ")
F == m.headers[1][1]
RoundTrip == done /\ F \in DOMAIN SfKind =>
  LET r == SfRead(m, F) k == SfKind[F] IN
  r.ok /\ (\A j \in 1..Len(r.q) : Plain(IF k = "dictionary" THEN r.q[j].v ELSE r.q[j])) =>
    LET s == SfParse(SerAll(r, k), k) IN s.ok /\ s.q = r.q /\ s.dup = <<>>
\* a value is either broken, and nothing of it is used, or read
AllOrNothing == done /\ F \in DOMAIN SfKind /\ Len(m.headers) = 1 => (HasN("STRUCTURED_FIELD_PARSE_ERROR") => \A k \in 1..Len(Notes) : StartsWith(Notes[k], "STRUCTURED") \/ StartsWith(Notes[k], "DUPLICATE"))
KeysOnce == done /\ F \in DOMAIN SfKind => LET r == SfRead(m, F) IN SfKind[F] = "dictionary" /\ r.ok => Cardinality({r.q[k].k : k \in 1..Len(r.q)}) = Len(r.q)
\* lines are one value
LineJoin == done /\ Len(m.headers) > 1 /\ F \in {"cache-status", "proxy-status"} => SfRead(m, F) = SfRead(Resp(<< <<F, m.headers[1][2] \o " ,\t" \o m.headers[2][2]>> >>), F)
\* a recognised parameter is never unknown, and one note per parameter at most
OneEach == done /\ F \in {"cache-status", "proxy-status"} => Len(SelectSeq(Notes, LAMBDA x : Contains(x, "_PARAM"))) <= 4
\* every child is under a parent
UnderParent == done /\ Subs1 # <<>> => HasN("PERMISSIONS_POLICY_PRESENT")
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
