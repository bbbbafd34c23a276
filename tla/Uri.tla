--------------------------------- MODULE Uri ---------------------------------
(***************************************************************************)
(* RFC 3986: the grammar of URIs and references, their components, and the *)
(* resolution of a reference against a base (section 5.2).                 *)
(***************************************************************************)
EXTENDS Fields

Unreserved == AlNum \cup {"-", ".", "_", "~"}
SubDelims  == {"!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "="}
PctEnc     == S(<<C({"%"}), C(HexDig), C(HexDig)>>)
Pch(extra) == A(<<C(Unreserved \cup SubDelims \cup extra), PctEnc>>)
PChar      == Pch({":", "@"})
Scheme     == S(<<C(Alpha), Star(C(AlNum \cup {"+", "-", "."}))>>)
DecOctet   == A(<<C(Digit), S(<<C(CharRange(49, 57)), C(Digit)>>), S(<<C({"1"}), C(Digit), C(Digit)>>),
                  S(<<C({"2"}), C(CharRange(48, 52)), C(Digit)>>), S(<<C({"2"}), C({"5"}), C(CharRange(48, 53))>>)>>)
Dot        == C({"."})
Colon      == C({":"})
IPv4       == S(<<DecOctet, Dot, DecOctet, Dot, DecOctet, Dot, DecOctet>>)
H16        == R(C(HexDig), 1, 4)
H16c       == S(<<H16, Colon>>)
Ls32       == A(<<S(<<H16c, H16>>), IPv4>>)
Compressed(k) == S(<<Opt(S(<<R(H16c, 0, k), H16>>)), Colon, Colon>>)
IPv6       == A(<<S(<<N(H16c, 6), Ls32>>),
                  S(<<Colon, Colon, N(H16c, 5), Ls32>>),
                  S(<<Compressed(0), N(H16c, 4), Ls32>>),
                  S(<<Compressed(1), N(H16c, 3), Ls32>>),
                  S(<<Compressed(2), N(H16c, 2), Ls32>>),
                  S(<<Compressed(3), H16c, Ls32>>),
                  S(<<Compressed(4), Ls32>>),
                  S(<<Compressed(5), H16>>),
                  Compressed(6)>>)
IPvFuture  == S(<<L("v"), Plus(C(HexDig)), Dot, Plus(C(Unreserved \cup SubDelims \cup {":"}))>>)
IPLiteral  == S(<<C({"["}), A(<<IPv6, IPvFuture>>), C({"]"})>>)
RegName    == Star(Pch({}))
Host       == A(<<IPLiteral, IPv4, RegName>>)
Port       == Star(C(Digit))
Userinfo   == Star(Pch({":"}))
Authority  == S(<<Opt(S(<<Userinfo, C({"@"})>>)), Host, Opt(S(<<Colon, Port>>))>>)
Segs       == Star(S(<<C({"/"}), Star(PChar)>>))
PathAbsolute == S(<<C({"/"}), Opt(S(<<Plus(PChar), Segs>>))>>)
PathNoScheme == S(<<Plus(Pch({"@"})), Segs>>)
PathRootless == S(<<Plus(PChar), Segs>>)
Query      == Star(Pch({":", "@", "/", "?"}))
Net        == S(<<L("//"), Authority, Segs>>)
HierPart   == A(<<Net, Opt(A(<<PathAbsolute, PathRootless>>))>>)
RelPart    == A(<<Net, Opt(A(<<PathAbsolute, PathNoScheme>>))>>)
OptQuery   == Opt(S(<<C({"?"}), Query>>))
OptFrag    == Opt(S(<<C({"#"}), Query>>))
AbsoluteUri == S(<<Scheme, Colon, HierPart, OptQuery>>)
UriG       == S(<<AbsoluteUri, OptFrag>>)
RelativeRef == S(<<RelPart, OptQuery, OptFrag>>)
UriRef     == A(<<UriG, RelativeRef>>)
PartialUri == S(<<RelPart, OptQuery>>)
IsUri(s) == FullMatch(UriG, s)

\* components (RFC 3986, appendix B); each is <<present, text>>
Absent == <<FALSE, "">>
HasScheme(s) == LET k == Find(s, {":", "/", "?", "#"}) IN
                k > 1 /\ Ch(s, k) = ":" /\ Ch(s, 1) \in Alpha /\ AllIn(SubSeq(s, 1, k - 1), AlNum \cup {"+", "-", "."})
Parts(s) ==
  LET sch == IF HasScheme(s) THEN <<TRUE, Lower(Before(s, ":"))>> ELSE Absent
      r1 == IF sch[1] THEN After(s, ":") ELSE s
      frag == IF Has(r1, "#") THEN <<TRUE, After(r1, "#")>> ELSE Absent
      r2 == Before(r1, "#")
      qry == IF Has(r2, "?") THEN <<TRUE, After(r2, "?")>> ELSE Absent
      r3 == Before(r2, "?")
      net == StartsWith(r3, "//")
      r4 == From(r3, 3)
      k == Find(r4, {"/"})
  IN [scheme |-> sch, query |-> qry, fragment |-> frag,
      authority |-> IF ~net THEN Absent ELSE <<TRUE, IF k = 0 THEN r4 ELSE SubSeq(r4, 1, k - 1)>>,
      path |-> IF ~net THEN r3 ELSE IF k = 0 THEN "" ELSE From(r4, k)]
\* host and port of an authority: userinfo dropped
AfterLast(s, c) == LET I == {k \in 1..Len(s) : Ch(s, k) = c} IN IF I = {} THEN s ELSE From(s, (CHOOSE k \in I : \A j \in I : j <= k) + 1)
HostPort(a) == LET h == AfterLast(a, "@") e == IF StartsWith(h, "[") THEN Find(h, {"]"}) ELSE 0
                   k == FindFrom(h, e + 1, {":"}) IN
               [host |-> Lower(IF k = 0 THEN h ELSE SubSeq(h, 1, k - 1)), port |-> IF k = 0 THEN "" ELSE From(h, k + 1)]
\* remove_dot_segments (5.2.4), on the segments of a path
RECURSIVE DotsFrom(_, _, _)
DotsFrom(q, k, acc) ==
  IF k > Len(q) THEN acc
  ELSE LET last == k = Len(q) IN
       IF q[k] = "." THEN DotsFrom(q, k + 1, IF last THEN Append(acc, "") ELSE acc)
       ELSE IF q[k] = ".." THEN LET up == IF Len(acc) > 0 THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc IN
                                DotsFrom(q, k + 1, IF last THEN Append(up, "") ELSE up)
       ELSE DotsFrom(q, k + 1, Append(acc, q[k]))
RemoveDots(p) == IF StartsWith(p, "/") THEN "/" \o Join(DotsFrom(Split(From(p, 2), "/"), 1, <<>>), "/")
                 ELSE Join(DotsFrom(Split(p, "/"), 1, <<>>), "/")
UpToLast(p) == LET I == {k \in 1..Len(p) : Ch(p, k) = "/"} IN IF I = {} THEN "" ELSE SubSeq(p, 1, CHOOSE k \in I : \A j \in I : j <= k)
Merge(b, p) == IF b.authority[1] /\ b.path = "" THEN "/" \o p ELSE UpToLast(b.path) \o p
Compose(u) == (IF u.scheme[1] THEN u.scheme[2] \o ":" ELSE "") \o (IF u.authority[1] THEN "//" \o u.authority[2] ELSE "")
              \o u.path \o (IF u.query[1] THEN "?" \o u.query[2] ELSE "") \o (IF u.fragment[1] THEN "#" \o u.fragment[2] ELSE "")
Resolve(b, r) ==
  IF r.scheme[1] THEN [r EXCEPT !.path = RemoveDots(@)]
  ELSE IF r.authority[1] THEN [r EXCEPT !.scheme = b.scheme, !.path = RemoveDots(@)]
  ELSE IF r.path = "" THEN [b EXCEPT !.query = IF r.query[1] THEN r.query ELSE b.query, !.fragment = r.fragment]
  ELSE [b EXCEPT !.path = RemoveDots(IF StartsWith(r.path, "/") THEN r.path ELSE Merge(b, r.path)), !.query = r.query, !.fragment = r.fragment]
SchemeOf(base, ref) == Resolve(Parts(base), Parts(ref)).scheme[2]
=============================================================================
