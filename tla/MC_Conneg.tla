------------------------------ MODULE MC_Conneg ------------------------------
EXTENDS Conneg
CONSTANTS Weights, Ranges, Prefs, Codings, Names1, MaxNames
\* (strings in a configuration file have no escapes)
WeightsIn == {"", ";q=0", ";q=1", "; Q=1.000", ";q=1.001", ";q=0.", ";q=.5", ";q=0.1234", ";q=1e-1", ";q=+1", ";q=\"0.5\"", ";q=0.500;a=b", ";a=b;q=2", " ;q=0.5", ";q=x;q=0.1", ";q*=0.5", ";q", ";q=00", ";q=0_1"}
VARIABLES m, done, Notes
Req(h) == [kind |-> "request", top |-> <<"GET", "http://e.com/", "HTTP/1.1">>, headers |-> h]
Resp(h) == [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> h]
Opts(X) == {<<x>> : x \in X} \cup {<<x, y>> : x \in X, y \in X}
RECURSIVE Lines(_, _)
Lines(name, vs) == IF vs = <<>> THEN <<>> ELSE << <<name, vs[1]>> >> \o Lines(name, SubSeq(vs, 2, Len(vs)))
SeqsOf(X, k) == UNION {[1..n -> X] : n \in 0..k}
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \/ \E f \in {"accept", "accept-encoding", "accept-language"}, r \in Ranges, w \in Weights : m = Req(<< <<f, r \o w>> >>)
           \/ \E f \in {"accept-post", "accept-patch", "accept-ranges", "allow", "content-language"}, r \in Ranges, w \in Ranges : m = Resp(<< <<f, r>>, <<f, w>> >>)
           \/ \E p \in Opts(Prefs), x \in Codings : m = Resp(<< <<"content-encoding", x>> >>) @@ [related |-> Req(Lines("accept-encoding", p))]
           \/ \E q \in SeqsOf(Names1, MaxNames) : m = Resp(<< <<"vary", Join(q, ", ")>> >>)
           \/ \E q \in SeqsOf({"en", "EN", "fr"}, 4) : m = Resp(<< <<"content-language", Join(q, ",")>> >>)
Next == ~done /\ done' = TRUE /\ Notes' = ConnegNotes(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], n)
F == m.headers[1][1]
V == m.headers[1][2]
\* the weights that are taken are those of the grammar
QValue == A(<<S(<<L("0"), Opt(S(<<L("."), R(C(Digit), 0, 3)>>))>>), S(<<L("1"), Opt(S(<<L("."), R(C({"0"}), 0, 3)>>))>>)>>)
WeightOk == done /\ F \in {"accept", "accept-language"} => \A k \in 1..Len(Scan(After(V, ";"))) : LET p == Scan(After(V, ";"))[k] IN
              Lower(p[1]) = "q" => QOk(Unquote(p[2])) = FullMatch(QValue, Unquote(p[2]))
\* Vary: order, repetition and case change nothing but the complaint about repetition
Rest(q) == SeqSet(q) \ {"VARY_DUPLICATE@field-vary"}
VarySet == done /\ F = "vary" =>
  /\ Rest(VaryNotes(Resp(<< <<"vary", V \o ", " \o ToUpper(V)>> >>))) = Rest(Notes)
  /\ (V # "" => "VARY_DUPLICATE@field-vary" \in SeqSet(VaryNotes(Resp(<< <<"vary", V \o ", " \o ToUpper(V)>> >>))))
  /\ Cardinality(SeqSet(VaryNames(m))) = Len(VaryNames(m))
\* a coding asked for on its own, without weight, is wanted; "*" stands for all that aren't named
Wanted == done /\ F = "content-encoding" /\ V # "*" /\ ~Has(V, ",") =>
  /\ CodingWanted(Lower(V), << <<0, V>> >>) /\ CodingWanted(Lower(V), << <<0, "*">> >>) /\ ~CodingWanted(Lower(V), <<>>)
  /\ (Listed(Lower(V), Members(m.related.headers, "accept-encoding")) => CeNotes(m) = CeNotes([m EXCEPT !.related.headers = @ \o << <<"accept-encoding", "*">> >>]))
OneDup == done /\ F = "content-language" => (Notes # <<>> <=> Cardinality(SeqSet(Names(Members(m.headers, F)))) < Len(Members(m.headers, F)))
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
