-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: what its arguments mean, what a message on standard   *)
(* input is made of, and the report of the notes that the library has on   *)
(* that message.                                                           *)
(***************************************************************************)
EXTENDS Locale
Crlf == CharOf(13) \o CharOf(10)

\* ---- arguments --------------------------------------------------------------
\* -i/--input KIND, -l/--locale NAME, -n/--now; "=" may join a long one with its value, a short
\* one needn't have a space before its value, and -n can have others joined on to it
Settings0 == [mode |-> "response", loc |-> Default, now |-> FALSE]
SetOpt(s, o, v) == IF o = "i" THEN [s EXCEPT !.mode = v] ELSE [s EXCEPT !.loc = IF v = "" THEN Default ELSE v]
LongOf == ("--input" :> "i") @@ ("--locale" :> "l")
RECURSIVE Settings(_, _)
Settings(a, s) ==
  IF a = <<>> THEN s
  ELSE LET x == a[1] IN
       IF x \in {"-n", "--now"} THEN Settings(Tail(a), [s EXCEPT !.now = TRUE])
       ELSE IF StartsWith(x, "-n") THEN Settings(<<"-" \o From(x, 3)>> \o Tail(a), [s EXCEPT !.now = TRUE])
       ELSE IF x \in {"-i", "-l"} THEN Settings(SubSeq(a, 3, Len(a)), SetOpt(s, From(x, 2), a[2]))
       ELSE IF x \in DOMAIN LongOf THEN Settings(SubSeq(a, 3, Len(a)), SetOpt(s, LongOf[x], a[2]))
       ELSE IF StartsWith(x, "--") THEN Settings(Tail(a), SetOpt(s, LongOf[Before(x, "=")], From(x, Find(x, {"="}) + 1)))
       ELSE Settings(Tail(a), SetOpt(s, SubSeq(x, 2, 2), From(x, 3)))

\* ---- messages in HTTP/1 -----------------------------------------------------------
\* m: kind, top (its parts), headers and trailers (<<name, space, value, space>>), chunks
\* (<<extension, data>>), framing, interim (a response that comes before)
RECURSIVE Joined(_, _)
Joined(ss, k) == IF k > Len(ss) THEN "" ELSE ss[k] \o Joined(ss, k + 1)
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN HexDigits[n + 1] ELSE Hex(n \div 16) \o HexDigits[(n % 16) + 1]
Lines(fs) == Joined([k \in 1..Len(fs) |-> fs[k][1] \o ":" \o fs[k][2] \o fs[k][3] \o fs[k][4] \o Crlf], 1)
TopLine(m) == m.top[1] \o (IF Len(m.top) > 1 THEN " " \o m.top[2] ELSE "") \o (IF Len(m.top) > 2 THEN " " \o m.top[3] ELSE "")
Chunked(m) == Joined([k \in 1..Len(m.chunks) |-> Hex(Len(m.chunks[k][2])) \o m.chunks[k][1] \o Crlf \o m.chunks[k][2] \o Crlf], 1)
              \o "0" \o Crlf \o Lines(m.trailers) \o Crlf
Body(m) == Joined([k \in 1..Len(m.chunks) |-> m.chunks[k][2]], 1)
Wire(m) == (IF m.interim THEN "HTTP/1.1 103 Early Hints" \o Crlf \o "Link: </a>; rel=preload" \o Crlf \o Crlf ELSE "")
           \o TopLine(m) \o Crlf \o Lines(m.headers) \o Crlf
           \o (IF m.framing = "chunked" THEN Chunked(m) ELSE Body(m))
\* what the library is told: whitespace around a value isn't part of it
VersionOf(s) == From(s, Find(s, {"/"}) + 1)
Told(m) == [kind |-> m.kind, top |-> IF m.kind = "request" THEN <<m.top[1], m.top[2], VersionOf(m.top[3])>> ELSE <<VersionOf(m.top[1])>> \o Tail(m.top), headers |-> [k \in 1..Len(m.headers) |-> <<m.headers[k][1], m.headers[k][3]>>],
            trailers |-> [k \in 1..Len(m.trailers) |-> <<m.trailers[k][1], m.trailers[k][3]>>], body |-> Body(m)]

\* ---- the report --------------------------------------------------------------------------
\* notes: c (category), l (level), s (summary), sub (notes)
\* what a message says may have control characters in it: they are shown, and make no lines of their own
Controls == CharRange(0, 31) \cup CharRange(127, 159)
Shown(s) == IF ~AnyIn(s, Controls) THEN s
            ELSE Join([k \in 1..Len(s) |-> IF Ch(s, k) \notin Controls THEN Ch(s, k)
                                            ELSE "\\x" \o HexDigits[1 + (Code[Ch(s, k)] \div 16)] \o HexDigits[1 + (Code[Ch(s, k)] % 16)]], "")
Line(n) == "* [" \o n.l \o "] " \o Shown(n.s)
SubLine(n) == "  * [" \o n.l \o "] " \o Shown(n.s)
ItemOf(n) == <<Line(n), [k \in 1..Len(n.sub) |-> SubLine(n.sub[k])] \o <<>> >>
CatsOf(notes) == {notes[k].c : k \in 1..Len(notes)}
\* a report read: groups <<heading, items>>, where an item is its line and those under it
IsHeading(l) == StartsWith(l, "### ")
IsItem(l) == StartsWith(l, "* [")
IsSub(l) == StartsWith(l, "  * [")
RECURSIVE Read(_, _, _)
Read(ls, k, gs) ==
  IF k > Len(ls) THEN gs
  ELSE LET l == ls[k] n == Len(gs) IN
       IF l = "" THEN Read(ls, k + 1, gs)
       ELSE IF IsHeading(l) THEN Read(ls, k + 1, Append(gs, <<From(l, 5), <<>> >>))
       ELSE IF IsItem(l) /\ n > 0 THEN Read(ls, k + 1, [gs EXCEPT ![n][2] = Append(@, <<l, <<>> >>)])
       ELSE IF IsSub(l) /\ n > 0 /\ Len(gs[n][2]) > 0 THEN Read(ls, k + 1, [gs EXCEPT ![n][2][Len(gs[n][2])][2] = Append(@, l)])
       ELSE Read(ls, k + 1, Append(gs, <<"not a line of a report: " \o l, <<>> >>))
\* how often x is in s
Times(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
\* cats: the categories' names in the locale
GroupBad(g, cats, notes) ==
  LET mine == SelectSeq(notes, LAMBDA n : cats[n.c] = g[1])
      want == [k \in 1..Len(mine) |-> ItemOf(mine[k])] \o <<>>
      all == {want[k] : k \in 1..Len(want)} \cup {g[2][k] : k \in 1..Len(g[2])}
  IN (IF Len(mine) > 0 THEN {} ELSE {"not a category of its notes: " \o g[1]})
     \cup {"printed " \o ToString(Times(g[2], x)) \o " times, not " \o ToString(Times(want, x)) \o ": " \o x[1] : x \in {y \in all : Times(g[2], y) # Times(want, y)}}
ReportBad(ls, cats, notes) ==
  LET gs == Read(ls, 1, <<>>) heads == [k \in 1..Len(gs) |-> gs[k][1]] IN
  {"heading repeated: " \o heads[k] : k \in {j \in 1..Len(heads) : Times(heads, heads[j]) > 1}}
  \cup {"no heading: " \o cats[x] : x \in {y \in CatsOf(notes) : Times(heads, cats[y]) = 0}}
  \cup UNION {GroupBad(gs[k], cats, notes) : k \in 1..Len(gs)}
\* a report as the command prints it
RECURSIVE Report1(_, _, _)
Report1(cs, cats, notes) ==
  IF cs = <<>> THEN <<>>
  ELSE LET mine == SelectSeq(notes, LAMBDA n : n.c = cs[1]) IN
       (IF mine = <<>> THEN <<>> ELSE <<"", "### " \o cats[cs[1]], "">>) \o Cat([k \in 1..Len(mine) |-> <<ItemOf(mine[k])[1]>> \o ItemOf(mine[k])[2]]) \o Report1(Tail(cs), cats, notes)
=============================================================================
