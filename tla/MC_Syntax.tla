------------------------------ MODULE MC_Syntax ------------------------------
(* Values built piece by piece, of every field that has a grammar; and the grammars, to derive values from. *)
EXTENDS Grammars
CONSTANTS Names, Pieces, MaxPieces
\* (strings in a configuration file have no escapes)
PiecesQuick == {"a", " ", ",", "=", "\"", "*", "<", "\\", "q=0.5"}
PiecesIn == {"a", "1", " ", ",", ";", "=", "\"", "/", "*", "(", ")", "<", ">", ":", "\\", "q=0.5", "W/\"", "a b", "x=y", "en-"}
\* what encloses commas
PiecesWhole == {"a", ",", " (", ")", "\"", "\\", "1 a"}
VARIABLES name, v, n
Init == name \in (IF Names = {} THEN GrammarNames ELSE Names) /\ v = "" /\ n = 0
Next == n < MaxPieces /\ n' = n + 1 /\ name' = name /\ \E p \in Pieces : v' = v \o p
Spec == Init /\ [][Next]_<<name, v, n>>
Ok(x) == FullMatch(GrammarOf(x), Strip(v))
CaseLess == name = "access-control-allow-credentials" \/ (FullMatch(GrammarOf(name), ToUpper(v)) <=> FullMatch(GrammarOf(name), v))
\* what one grammar allows, others do
Within == << <<"accept-patch", "accept-post">>, <<"accept-post", "accept">>, <<"content-type", "accept">>, <<"content-language", "accept-language">>,
  <<"etag", "if-match">>, <<"if-match", "if-none-match">>, <<"etag", "if-range">>, <<"if-modified-since", "if-range">>, <<"if-unmodified-since", "retry-after">>,
  <<"max-forwards", "retry-after">>, <<"referer", "location">>, <<"content-location", "referer">>, <<"upgrade", "user-agent">>, <<"user-agent", "server">>,
  <<"transfer-encoding", "te">>, <<"cache-control", "expect">>, <<"keep-alive", "cache-control">>, <<"clear-site-data", "if-match">>,
  <<"connection", "cache-control">>, <<"vary", "transfer-encoding">>, <<"content-encoding", "upgrade">>, <<"access-control-request-method", "access-control-allow-methods">>,
  <<"location", "access-control-allow-origin">>, <<"authentication-info", "strict-transport-security">>, <<"x-content-type-options", "referrer-policy">>,
  <<"authorization", "www-authenticate">>, <<"content-disposition", "server-timing">> >>
NoBackslash == ~Has(v, "\\") /\ ~Has(v, " ") /\ ~Has(v, "\t")
Inclusion == \A k \in 1..Len(Within) : name = Within[k][1] /\ (name # "clear-site-data" \/ NoBackslash) /\ Ok(name) => Ok(Within[k][2])
\* splitting keeps every byte but separators and what is around members; members are what the grammar sees
Tight == IsList(name) => \A k \in 1..Len(SplitFor(name, v)) : LET x == SplitFor(name, v)[k] IN x # "" /\ Strip(x) = x /\ Contains(v, x)
\* a value without commas is one member
OneMember == IsList(name) /\ ~Has(v, ",") /\ Strip(v) # "" /\ ~Has(v, "\"") => SplitFor(name, v) = <<Strip(v)>>
\* what the grammar of a member allows is one member, whatever commas there are in it (but for those a host name may have)
ViaPlain == S(<<Opt(S(<<Token, Slash>>)), Token, Rws, Token, Opt(S(<<Rws, Comment(10)>>))>>)
Whole == IsList(name) /\ name \notin Challenges /\ (name # "via" \/ FullMatch(ViaPlain, Strip(v))) /\ Strip(v) # "" /\ Ok(name)
         => SplitFor(name, v) = <<Strip(v)>>
M == [kind |-> IF Entry(name).resp THEN "response" ELSE "request", headers |-> << <<name, v>> >>]
\* a list is fine exactly if its members are
ListFine == IsList(name) => ((SyntaxNotes(M) = <<>>) <=> \A k \in 1..Len(Judged(name, M.headers)) : FullMatch(GrammarOf(name), Judged(name, M.headers)[k][2]))
Emit == IF n = 0 THEN PrintT("SCN " \o ToJson([name |-> name, single |-> IsSingle(name), g |-> GrammarOf(name)]))
        ELSE PrintT("SCN " \o ToJson([name |-> name, v |-> v]))
=============================================================================
