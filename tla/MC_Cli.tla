------------------------------ MODULE MC_Cli ------------------------------
(* Messages of every framing, told apart from their wire form; arguments in every spelling; and
   reports of a few notes. *)
EXTENDS Cli
VARIABLES m, argv, done
Framings(kind) == IF kind = "request" THEN {"none", "length", "chunked"} ELSE {"none", "length", "chunked", "close"}
Kinds == {"request", "response"}
Pieces == {<<>>, << <<"", "ab">> >>, << <<";x=y", "a">>, <<"", "0123456789abcdef!">> >>}
Spaces == {<<"", "">>, <<" ", "">>, <<" \t ", "\t">>}
Shapes == {s \in [kind : Kinds, framing : {"none", "length", "chunked", "close"}, chunks : Pieces, tr : 0..1, sp : Spaces, interim : BOOLEAN] :
             /\ s.framing \in Framings(s.kind)
             /\ (s.framing = "none" => s.chunks = <<>>)
             /\ (s.framing # "chunked" => s.tr = 0)
             /\ (s.interim => s.kind = "response")}
Field(n, sp, v) == <<n, sp[1], v, sp[2]>>
FramingFields(s) == CASE s.framing = "length" -> <<Field("Content-Length", s.sp, ToString(Len(Body(s))))>>
                      [] s.framing = "chunked" -> <<Field("Transfer-Encoding", s.sp, "chunked")>>
                      [] OTHER -> <<>>
MsgOf(s) == [kind |-> s.kind, framing |-> s.framing, chunks |-> s.chunks, interim |-> s.interim,
             top |-> IF s.kind = "request" THEN <<"POST", "http://example.com/", "HTTP/1.1">> ELSE <<"HTTP/1.1", IF s.framing = "none" THEN "304" ELSE "200", "OK">>,
             headers |-> <<Field("Date", s.sp, "Tue, 14 Nov 2023 22:13:20 GMT")>> \o FramingFields(s) \o <<Field("Cache-Control", s.sp, "max-age=60, foo")>>,
             trailers |-> IF s.tr = 1 THEN <<Field("ETag", s.sp, "\"x\"")>> ELSE <<>>]
Modes(kind) == IF kind = "request" THEN {<<"-i", "request">>, <<"-irequest">>, <<"--input", "request">>, <<"--input=request">>}
               ELSE {<<>>, <<"-i", "response">>, <<"--input=response">>}
Locs == {<<>>, <<"-l", "fr">>, <<"-lja">>, <<"--locale", "zh_CN">>, <<"--locale=xx">>}
Nows == {<<>>, <<"-n">>, <<"--now">>}
Argvs(kind) == {<<a, b, c>> : a \in Modes(kind), b \in Locs, c \in Nows}
Init == \E s \in Shapes : m = MsgOf(s) /\ argv \in {Cat(x) : x \in Argvs(s.kind)} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<m, argv>>
Spec == Init /\ [][Next]_<<m, argv, done>>
\* reading the wire form back
RECURSIVE CountCrlf(_, _)
CountCrlf(w, k) == IF k >= Len(w) THEN 0 ELSE IF SubSeq(w, k, k + 1) = Crlf THEN 1 + CountCrlf(w, k + 2) ELSE CountCrlf(w, k + 1)
WireOk == done => LET w == Wire(m) IN
          /\ EndsWith(w, IF m.framing = "chunked" THEN Crlf \o Crlf ELSE IF Body(m) = "" THEN Crlf \o Crlf ELSE Body(m)) \/ m.framing = "chunked"
          /\ CountCrlf(w, 1) = (IF m.interim THEN 3 ELSE 0) + 2 + Len(m.headers) + (IF m.framing = "chunked" THEN 2 * Len(m.chunks) + 2 + Len(m.trailers) ELSE 0)
ArgsOk == done => LET s == Settings(argv, Settings0) IN s.mode = m.kind /\ s.loc \in {"en", "fr", "ja", "zh_CN", "xx"} /\ (s.now <=> \E k \in 1..Len(argv) : argv[k] \in {"-n", "--now"})
\* a report of any notes is accepted, and none with a line left out, doubled or moved to another group
Sub == {<<>>, <<[l |-> "BAD", s |-> "p"]>>, <<[l |-> "BAD", s |-> "p"], [l |-> "GOOD", s |-> "q"]>>}
NotesOf == UNION {[1..n -> [c : {"X", "Y"}, l : {"GOOD"}, s : {"a", "b"}, sub : Sub]] : n \in 0..2}
CatNames == ("X" :> "Ex") @@ ("Y" :> "Why")
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
ASSUME \A ns \in NotesOf :
  LET r == Report1(<<"X", "Y">>, CatNames, ns) IN
  /\ ReportBad(r, CatNames, ns) = {}
  /\ \A k \in 1..Len(r) : r[k] # "" => ReportBad(Without(r, k), CatNames, ns) # {}
  /\ \A k \in 1..Len(r) : r[k] # "" => ReportBad(r \o <<r[k]>>, CatNames, ns) # {}
Emit == ~done \/ PrintT("SCN " \o ToJson([m |-> m, argv |-> argv]))
=============================================================================
