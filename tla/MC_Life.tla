------------------------------ MODULE MC_Life ------------------------------
(* The lifecycle as a state machine, over small messages and every split of their content.          *)
EXTENDS Lifecycle
CONSTANTS Files, MaxChunks, Configs
VARIABLES phase, cfg, file, pos, chunks, machine, hist
vars == <<phase, cfg, file, pos, chunks, machine, hist>>

Cfg == [plain   |-> [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>],
        gone    |-> [kind |-> "response", top |-> <<"HTTP/1.1", "304", "OK">>],
        nocont  |-> [kind |-> "response", top |-> <<"HTTP/1.1", "204", "OK">>],
        head    |-> [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, head |-> TRUE],
        blind   |-> [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, no_content |-> TRUE],
        get     |-> [kind |-> "request", top |-> <<"GET", "http://e.com/", "HTTP/1.1">>],
        put     |-> [kind |-> "request", top |-> <<"PUT", "http://e.com/", "HTTP/1.1">>],
        delete  |-> [kind |-> "request", top |-> <<"DELETE", "http://e.com/", "HTTP/1.1">>]]
\* sub-files: gzip streams of stored blocks, whole, cut, with every optional header part, and broken ones
File == [empty |-> "", text |-> "616263",
         gz    |-> "1f8b0800000000000003" \o "010200fdff6869" \o "0000000000000000",
         two   |-> "1f8b0800000000000003" \o "000100feff68" \o "010100feff69" \o "00000000",
         parts |-> "1f8b081e000000000003" \o "0200aabb" \o "6e00" \o "6300" \o "1234" \o "010100feff78" \o "00",
         named |-> "1f8b0808000000000003" \o "006100" \o "00feff",
         magic |-> "1f8c0800000000000003" \o "010100feff78",
         meth  |-> "1f8b0900000000000003" \o "010100feff78",
         type  |-> "1f8b0800000000000003" \o "000100feff78" \o "06ffff",
         nlen  |-> "1f8b0800000000000003" \o "000100feff78" \o "010100ffff79",
         cut   |-> "1f8b0800000000000003" \o "010500faff7879",
         hcut  |-> "1f8b0804000000000003" \o "05"]
HeaderSets == {<<>>, << <<"Content-Encoding", "gzip">> >>}
Lengths == {"", "right", "wrong", "junk"}
ClLine(l, n) == CASE l = "" -> <<>> [] l = "right" -> << <<"Content-Length", ToString(n)>> >>
                  [] l = "wrong" -> << <<"Content-Length", ToString(n + 1)>> >>
                  [] l = "junk" -> << <<"Content-Length", "+" \o ToString(n)>> >>
Init == /\ phase = "headers" /\ file \in Files /\ pos = 0 /\ chunks = <<>> /\ machine = GzInit /\ hist = <<>>
        /\ \E c \in Configs, hs \in HeaderSets, l \in Lengths :
              /\ IF hs = <<>> THEN file \in {"empty", "text"} ELSE c = "plain" /\ l = "right"
              /\ cfg = [headers |-> hs \o ClLine(l, HLen(File[file]))] @@ Cfg[c]
Raw == File[file]
Feed(n) == /\ phase \in {"headers", "content"} /\ Len(chunks) < MaxChunks /\ pos + n <= HLen(Raw)
           /\ LET c == SubSeq(Raw, 2 * pos + 1, 2 * (pos + n)) IN
              /\ chunks' = Append(chunks, c) /\ machine' = GzFeed(machine, c) /\ hist' = Append(hist, HLen(machine'.out))
           /\ pos' = pos + n /\ phase' = "content" /\ UNCHANGED <<cfg, file>>
Finish == /\ phase \in {"headers", "content"} /\ pos = HLen(Raw) /\ phase' = "finished"
          /\ UNCHANGED <<cfg, file, pos, chunks, machine, hist>>
Next == Finish \/ \E n \in 0..HLen(Raw) : Feed(n)
Spec == Init /\ [][Next]_vars
----
Fed == SubSeq(Raw, 1, 2 * pos)
\* the byte-by-byte machine and the whole-input decoder agree at every split of every file
SplitFree == /\ Concat(chunks) = Fed
             /\ machine.out = GzDecode(Fed).out /\ machine.note = GzDecode(Fed).note
\* output only grows, and what was surely delivered is a prefix of all of it
Monotonic == \A k \in 2..Len(hist) : hist[k - 1] <= hist[k]
SafePrefix == StartsWith(Decoded(cfg, Fed).out, Surely(cfg, chunks))
\* one length verdict at most, never both, and none without content rules
OneVerdict == LET q == LengthNotes(cfg, pos) cl == {k \in 1..Len(q) : StartsWith(q[k], "CL_")} IN
              /\ Cardinality(cl) <= 1
              /\ (NoContent(cfg) => q = <<>>)
              /\ (Cardinality(cl) = 1 <=> (~NoContent(cfg) /\ MayHaveContent(cfg) /\ Present(cfg.headers, "content-length")))
              /\ (\E k \in 1..Len(q) : StartsWith(q[k], "CONTENT_NOT_ALLOWED")) => (cl = {} /\ pos > 0)
Emit == phase # "finished" \/ PrintT("SCN " \o ToJson([cfg |-> cfg, chunks |-> chunks]))
=============================================================================
