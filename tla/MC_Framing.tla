------------------------------ MODULE MC_Framing ------------------------------
(* Framing fields in every combination of a few values and orders. *)
EXTENDS Framing
CONSTANTS Lengths, Codings, Tes
\* (strings in a configuration file have no escapes)
TesIn == {"gzip", "trailers, GZIP;q=0", "gzip; q=0.000", "gzip;q=0.001", "deflate;q=\"0\", gzip", "gzip;q=0, gzip", " ;q=1", "x;q*=0"}
VARIABLES m, done, Notes
RECURSIVE Lines(_, _)
Lines(name, vs) == IF vs = <<>> THEN <<>> ELSE << <<name, vs[1]>> >> \o Lines(name, SubSeq(vs, 2, Len(vs)))
Opts(X) == {<<>>} \cup {<<x>> : x \in X} \cup {<<x, y>> : x \in X, y \in X}
Small(X) == {<<>>} \cup {<<x>> : x \in X}
Req(t) == [kind |-> "request", top |-> <<"GET", "http://e.com/", "HTTP/1.1">>, headers |-> Lines("te", t)]
Resp(h, r) == [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> h, related |-> r]
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \/ \E c \in Small(Lengths), t \in Small(Codings), rev \in BOOLEAN :
                LET a == Lines("content-length", c) b == Lines("transfer-encoding", t) IN
                m = [kind |-> "request", top |-> <<"POST", "http://e.com/", "HTTP/1.1">>, headers |-> IF rev THEN b \o a ELSE a \o b]
           \/ \E t \in Opts(Codings), q \in Small(Tes) : m = Resp(Lines("transfer-encoding", t), Req(q))
           \/ \E x \in Lengths, y \in Lengths : m = [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> Lines("content-length", <<x, y>>)]
           \/ \E q \in Opts(Tes) : m = Req(q)
Next == ~done /\ done' = TRUE /\ Notes' = FramingNotes(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], n)
\* a length is bad, or too large, or neither; a bad one doesn't conflict with anything
OneVerdict == ~(HasN("CL_BAD_SYNTAX") /\ (HasN("CL_TOO_LARGE") \/ HasN("CL_AND_TE_PRESENT")))
Conflict == done /\ Present(m.headers, "content-length") /\ ClOk(m) => (HasN("CL_AND_TE_PRESENT") <=> Present(m.headers, "transfer-encoding"))
\* the order of fields doesn't matter
Rev == [k \in 1..Len(m.headers) |-> m.headers[Len(m.headers) + 1 - k]]
Whole(q) == {q[k] : k \in {j \in 1..Len(q) : ~Contains(q[j], "offset-")}}
OrderFree == done /\ ~(Len(LinesOf(m.headers, "content-length")) > 1) => Whole(FramingNotes([m EXCEPT !.headers = Rev])) = Whole(Notes)
\* several lines are one list
Joined == LET ls == LinesOf(m.headers, "transfer-encoding") IN
          done /\ Len(ls) = 2 => TcText(ls[1][2]) # "" /\ FramingParsed(m, "transfer-encoding") = FramingParsed([m EXCEPT !.headers = << <<"Transfer-Encoding", ls[1][2] \o " ,, " \o ls[2][2]>> >>], "transfer-encoding")
\* what is asked for isn't unwanted; asking for more never makes anything unwanted
Wanted == done /\ AsksFor(m) => /\ TcUnwanted(m) \subseteq TcNames(m)
                                /\ \A n \in TcNames(m) : n \notin TcUnwanted([m EXCEPT !.related.headers = @ \o << <<"te", n>> >>])
                                /\ TcUnwanted([m EXCEPT !.related.headers = @ \o << <<"te", "br">> >>]) \subseteq TcUnwanted(m)
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
