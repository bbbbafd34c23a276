------------------------------ MODULE MC_Ranges ------------------------------
(* Ranges and content ranges of small numbers and of near misses, with every status and related request. *)
EXTENDS Ranges
CONSTANTS Specs, MaxSpecs, UnitParts, Nums, Broken, Codes, ReqRange, Types
\* (strings in a configuration file have no escapes)
SpecsIn == {"0-0", "5-", "-5", "10-9", "9-10", " 1-2\t", "-", "", "1", "a-1", "1-b", "0x1-2", "1--2", "-0", "007-7"}
BrokenIn == {"bytes", "", "bytes 0-1", "0-1/2", "bytes */*", "bytes *", "bytes 0/2", "bytes 0-1/2/3", "bytes  0-1/2", "bytes\t0-1/2", "bytes 0-1 /2", "bytes 0-1/ 2", "bytes */2", "bytes *-1/2", "bytes 1-*/2", "bytes/1", "*/*", "x */-1", "bytes */ *", "bytes -1/2", "bytes 0-/2", "bytes 0-1/"}
VARIABLES m, done, Notes
Req(h) == [kind |-> "request", top |-> <<"GET", "http://e.com/", "HTTP/1.1">>, headers |-> h]
Resp(c, h) == [kind |-> "response", top |-> <<"HTTP/1.1", c, "OK">>, headers |-> h]
SeqsOf(X, k) == UNION {[1..n -> X] : n \in 0..k}
CrOf(u, a, b, l) == u \o a \o "-" \o b \o "/" \o l
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \/ \E u \in UnitParts, q \in SeqsOf(Specs, MaxSpecs) : m = Req(<< <<"range", u \o Join(q, ",")>> >>)
           \/ \E c \in Codes, a \in Nums, b \in Nums, l \in Nums \cup {"*"} : m = Resp(c, << <<"content-range", CrOf("bytes ", a, b, l)>> >>)
           \/ \E c \in Codes, x \in Broken : m = Resp(c, << <<"content-range", x>> >>)
           \/ \E c \in Codes, x \in {"bytes 0-1/2", "bytes */3"}, r \in ReqRange, t \in Types, has \in BOOLEAN :
                m = Resp(c, (IF has THEN << <<"Content-Range", x>> >> ELSE <<>>) \o (IF t = "" THEN <<>> ELSE << <<"content-type", t>> >>)) @@ [related |-> Req(IF r = "" THEN <<>> ELSE << <<r, "bytes=0-1">> >>)]
Next == ~done /\ done' = TRUE /\ Notes' = RangesNotes(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], n)
\* independent of the reading above: what the grammar of RFC 9110 says of the value
Spec1 == A(<<S(<<R(C(Digit), 1, 0 - 1), L("-"), R(C(Digit), 0, 0 - 1)>>), S(<<L("-"), R(C(Digit), 1, 0 - 1)>>)>>)
Ows == R(C(OWS), 0, 0 - 1)
RangeG == S(<<R(C(CharRange(32, 126) \ {"="}), 0, 0 - 1), L("="), R(S(<<Ows, L(",")>>), 0, 0 - 1), Ows, Spec1, R(S(<<Ows, L(","), Ows, Opt(Spec1)>>), 0, 0 - 1)>>)
RangeGrammar == done /\ m.kind = "request" => (HasN("RANGE_BAD_SYNTAX") <=> ~FullMatch(RangeG, StripOWS(m.headers[1][2])))
\* read or reported
ReadOrReported == done =>
  /\ (m.kind = "request" => (RangeParsed(m) = "None" <=> HasN("RANGE_BAD_SYNTAX")))
  /\ (Present(m.headers, "content-range") => (CrParsed(m) = "None" <=> CrWrong(CrVal(m)) # "" /\ HasN(CrWrong(CrVal(m)))))
\* a readable content range is invalid exactly if it isn't first <= last < length
ToInt(d) == IF d = "" THEN 0 ELSE CHOOSE n \in 0..200 : ToString(n) = Canon(d)
Satisfiable == done /\ Present(m.headers, "content-range") /\ CrWrong(CrVal(m)) = "" /\ CrSpec(CrVal(m)) # "*" =>
  LET s == CrVal(m) a == ToInt(FirstOf(CrSpec(s))) b == ToInt(LastOf(CrSpec(s))) IN
  HasN("RANGE_INVALID@") <=> ~(a <= b /\ (CrLen(s) = "*" \/ b < ToInt(CrLen(s))))
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
