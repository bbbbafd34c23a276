----------------------------- MODULE MC_Content -----------------------------
EXTENDS Content
CONSTANTS Types, Pars, Statuses, Disps
Bodies == <<<<"a", 0, "">>, <<"a", 5, "">>, <<"" \o CharOf(233) \o "", 3, "t">>, <<"" \o CharOf(195) \o "" \o CharOf(169) \o "", 2, "x">>, <<"" \o CharOf(195) \o "" \o CharOf(169) \o "", 4095, "a" \o CharOf(226) \o "" \o CharOf(130) \o "" \o CharOf(172) \o "">>, <<"a", 8190, "" \o CharOf(226) \o "" \o CharOf(130) \o "" \o CharOf(172) \o "">>, <<"a", 8191, "" \o CharOf(195) \o "" \o CharOf(169) \o "">>, <<"a", 8192, "" \o CharOf(255) \o "">>, <<"ab", 10, "" \o CharOf(226) \o "" \o CharOf(130) \o "">>, <<"GIF89a", 1, "" \o CharOf(1) \o "">>, <<"" \o CharOf(255) \o "" \o CharOf(216) \o "" \o CharOf(255) \o "", 1, "x">>, <<"RIFFabcdWEBPVP", 1, "">>, <<"", 0, "" \o CharOf(129) \o "">>, <<"" \o CharOf(237) \o "" \o CharOf(160) \o "" \o CharOf(128) \o "", 1, "">>>>
\* (strings in a configuration file have no escapes)
ParsIn == {"", ";charset=utf-8", "; Charset=\"UTF-8\"", ";charset=iso-8859-1", ";charset=windows-1252;charset=ascii", ";charset*=utf-8''utf-8", ";charset='utf-8'", ";charset=foo", ";filename=a%b", "; FileName=\"a/b\"", ";filename*=UTF-8''%e2%82%ac%5c", ";filename*=\"utf-8''x\"", ";filename*=x", ";x", ";"}
VARIABLES m, done, Notes
NoDet == [other |-> FALSE, same |-> FALSE, ok |-> TRUE]
Resp(s, h) == [kind |-> "response", top |-> <<"HTTP/1.1", s, "OK">>, headers |-> h]
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \/ \E s \in Statuses, t \in Types, p \in Pars, b \in 1..Len(Bodies), c \in {TRUE, FALSE} :
                m = [kind |-> "response", top |-> <<"HTTP/1.1", s, "OK">>, headers |-> << <<"content-type", t \o p>> >>, body |-> b, complete |-> c]
           \/ \E d \in Disps, p \in Pars, q \in Pars : m = Resp("200", << <<"content-disposition", d \o p \o q>> >>)
           \/ \E t \in Types, p \in Pars, q \in Pars : m = Resp("200", << <<"content-type", t \o p \o q>> >>)
\* (TLC keeps only ASCII in the states it puts aside: until it is looked at, a body is a number)
Next == /\ ~done /\ done' = TRUE /\ m' = IF HasF(m, "body") THEN [m EXCEPT !.body = Bodies[m.body]] ELSE m
        /\ Notes' = ContentNotes(m', NoDet)
Spec == Init /\ [][Next]_<<m, done, Notes>>
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], n)
\* decoding as text is the same whether told by the bad places or by replacement characters
Utf8Agree == done /\ HasF(m, "body") => (Decodes("utf8", Alike(m), FALSE, TRUE) <=> 65533 \notin SeqSet(Decode(Bytes(Alike(m)))))
RoundTrip == done /\ HasF(m, "body") /\ Decodes("utf8", Alike(m), FALSE, TRUE) => Encode(Decode(Bytes(Alike(m)))) = Bytes(Alike(m))
\* what is complete and undecodable stays so when cut; never both verdicts on one content
CutLess == done /\ HasF(m, "body") /\ Decodes("utf8", Alike(m), FALSE, TRUE) => Decodes("utf8", Alike(m), TRUE, TRUE)
OneCharset == Cardinality({k \in 1..Len(Notes) : StartsWith(Notes[k], "CHARSET_")}) <= 1
NoneWithout == done /\ (~HasF(m, "body") \/ m.top[2] \in {"101", "199", "204", "205", "206", "304"}) => ~HasN("CHARSET_") /\ ~HasN("CONTENT_TYPE_MISMATCH")
JsonIsUtf8 == done /\ CtPresent(m) /\ NeedsUtf8(CtType(m)) => DeclaredCharset(m) = "utf-8"
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
