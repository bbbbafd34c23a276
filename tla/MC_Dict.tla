------------------------------ MODULE MC_Dict ------------------------------
(* Dictionary transport: offers and codings, Vary and storability; members of Use-As-Dictionary. *)
EXTENDS SfFields
CONSTANTS Codings, Accepts, Varies, Ccs, Members1, Values
\* (strings in a configuration file have no escapes)
ValuesIn == {"1", "1.5", "?1", "a", "\"a\"", ":YQ==:", "@1", "%\"a\"", "()", "(\"a\" b)"}
VARIABLES m, done, Notes
Lines(n, q) == [k \in 1..Len(q) |-> <<n, q[k]>>]
Opts(X) == {<<>>} \cup {<<x>> : x \in X} \cup {<<x, y>> : x \in X, y \in X}
Small(X) == {<<>>} \cup {<<x>> : x \in X}
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \/ \E v \in Values, q \in Opts(Accepts), b \in BOOLEAN :
                m = [kind |-> "request", top |-> <<"GET", "https://e.com/", "HTTP/1.1">>,
                     headers |-> IF b THEN Lines("accept-encoding", q) \o << <<"available-dictionary", v>> >> ELSE << <<"available-dictionary", v>> >> \o Lines("accept-encoding", q)]
           \/ \E q \in Opts(Codings), v \in Small(Varies), cc \in Small(Ccs) :
                m = [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> Lines("cache-control", cc) \o Lines("vary", v) \o Lines("content-encoding", q)]
           \/ \E n \in Members1, v \in Values, w \in Values, o \in Members1 :
                m = [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, headers |-> << <<"use-as-dictionary", n \o "=" \o v>>, <<"use-as-dictionary", o \o "=(" \o w \o " \"x\")">> >>]
Next == ~done /\ done' = TRUE /\ Notes' = DictNotes(m, TRUE) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], n)
\* asking for a dictionary coding is enough; asking for less never helps
Support == done /\ m.kind = "request" /\ SfOk(m, "available-dictionary") =>
  ~\E k \in 1..Len(DictNotes([m EXCEPT !.headers = @ \o << <<"accept-encoding", "br, DCZ">> >>], TRUE)) : StartsWith(DictNotes([m EXCEPT !.headers = @ \o << <<"accept-encoding", "br, DCZ">> >>], TRUE)[k], "AVAILABLE_DICTIONARY_MISSING")
\* naming the field in Vary is enough; nothing is said of what can't be stored
Varied == done /\ m.kind = "response" => /\ CodedNotes(m, FALSE) = <<>>
                                         /\ CodedNotes([m EXCEPT !.headers = @ \o << <<"Vary", "AVAILABLE-dictionary">> >>], TRUE) = <<>>
\* a member is right or wrong on its own: the order doesn't matter
Rev == [k \in 1..Len(m.headers) |-> m.headers[Len(m.headers) + 1 - k]]
OrderFree == done /\ Present(m.headers, "use-as-dictionary") =>
  LET r == SfRead(m, "use-as-dictionary") IN r.ok /\ r.dup = <<>> => SeqSet(UseNotes([m EXCEPT !.headers = Rev])) = SeqSet(UseNotes(m))
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
