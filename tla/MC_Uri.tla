------------------------------- MODULE MC_Uri -------------------------------
EXTENDS UriRules
CONSTANTS Schemes, Auths, Paths, Tails, Targets, Pars, Refs, Bases
\* (strings in a configuration file have no escapes)
ParsIn == {"", ";rel=preload", "; REL=\"x Preconnect\"", "; rev=x", ";anchor=\"#a\"", ";anchor=\"{\"", ";type=a/b", ";type=\"a\"", ";rel*=utf-8''x", ";title*=utf-8'en'%e2%82%ac", ",<b>;rel=dns-prefetch", ";as", ";type='a/b'"}
VARIABLES m, done, Notes
Iris == {s \o a \o p \o t : s \in Schemes, a \in Auths, p \in Paths, t \in Tails}
Init == /\ done = FALSE /\ Notes = <<>>
        /\ \/ \E u \in Iris : m = [kind |-> "request", top |-> <<"GET", u, "HTTP/1.1">>, headers |-> <<>>]
           \/ \E t \in Targets, p \in Pars, q \in Pars, b \in Bases : m = [kind |-> "response", top |-> <<"HTTP/1.1", "200", "OK">>, base_uri |-> b, headers |-> << <<"link", t \o p \o q>> >>]
           \/ \E r \in Refs, b \in Bases, s \in {"200", "201", "302"} : m = [kind |-> "response", top |-> <<"HTTP/1.1", s, "OK">>, base_uri |-> b, headers |-> << <<"location", r>> >>]
           \/ \E r \in Refs, u \in Refs : m = [kind |-> "request", top |-> <<"GET", u, "HTTP/1.1">>, headers |-> << <<"referer", r>> >>]
Next == ~done /\ done' = TRUE /\ Notes' = UriNotes(m) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, done, Notes>>
HasN(n) == \E k \in 1..Len(Notes) : StartsWith(Notes[k], n \o "@")
Req == done /\ m.kind = "request"
\* a URI is its own URI form; the form is one from its own point of view; no fragment is kept
SameUri == Req /\ IsUri(m.top[2]) => StoredUri(m.top[2]) = Before(m.top[2], "#") /\ ~HasN("URI_BAD_SYNTAX")
Idempotent == Req /\ Convertible(m.top[2]) => IsAscii(HostUri("x")) /\ StoredUri(StoredUri(m.top[2])) = StoredUri(m.top[2])
NoFragment == Req => ~Has(StoredUri(m.top[2]), "#")
\* RFC 3492's own examples
Puny == Punycode(<<98, 252, 99, 104, 101, 114>>) = "bcher-kva" /\ Punycode(<<20182, 20204, 20026, 20160, 20040, 19981, 35828, 20013, 25991>>) = "ihqwcrb4cv8a8dqg056pqjye"
        /\ Punycode(<<80, 97, 241>>) = "Pa-0ja"
\* same origin, no verdict across origins; insecure request and secure referrer are of different origins
RefererSane == Req /\ HasN("REFERER_SECURE_TO_INSECURE") => HasN("REFERER_SECURE_TO_DIFFERENT_ORIGIN")
RefererSame == Req /\ Present(m.headers, "referer") /\ m.headers[1][2] = m.top[2] => ~HasN("REFERER_SECURE_TO_DIFFERENT_ORIGIN")
\* splitting a Link of well-formed values gives them back
LinkWhole == done /\ m.kind = "response" /\ m.headers[1][1] = "link" /\ FullMatch(LinkValue, m.headers[1][2]) => Len(LinkMembers(m.headers)) = 1
Emit == ~done \/ PrintT("SCN " \o ToJson(m))
=============================================================================
