---------------------------- MODULE MC_Sections ----------------------------
(* Sections built line by line, in both kinds of message. *)
EXTENDS Sections
CONSTANTS MaxLines, Kinds, Lines
VARIABLES kind, ls
L1 == [age1 |-> <<"Age", "1">>, age2 |-> <<"age", "2">>, allow1 |-> <<"Allow", "GET">>, allow2 |-> <<"ALLOW", "a, ,PUT">>,
       conn1 |-> <<"Connection", "close">>, conn2 |-> <<"connection", "\"a,b\", x">>, vary |-> <<"Vary", "accept">>,
       host |-> <<"Host", "e.com">>, cookie |-> <<"Cookie", "a=b">>, setc |-> <<"Set-Cookie", "a=b">>, pub |-> <<"Public", "x">>,
       bad |-> <<"A b", "x">>, unk |-> <<"X-Unknown", "x">>, pow |-> <<"x-powered-by", "PHP, x">>, ch |-> <<"Accept-CH", "a">>, ch2 |-> <<"Accept-CH", "b;x=1">>,
       lat |-> <<"Server", Chr[234]>>, latn |-> <<"X" \o Chr[234] \o "y", "">>, alias |-> <<"xx-pad", "y">>, under |-> <<"Cache_Control", "x">>]
Init == kind \in Kinds /\ ls = <<>>
Next == Len(ls) < MaxLines /\ \E x \in Lines : ls' = Append(ls, L1[x]) /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, ls>>
Bag(q) == [x \in SeqSet(q) |-> CountIn(q, x)]
NoOff(q) == [k \in 1..Len(q) |-> Before(q[k], "@")]
\* a line's own notes do not depend on the lines before or after it
Front == SubSeq(ls, 1, Len(ls) - 1)
Local == ls = <<>> \/ (/\ PlaceNotes(ls, kind) = PlaceNotes(Front, kind) \o SubSeq(PlaceNotes(ls, kind), Len(PlaceNotes(Front, kind)) + 1, Len(PlaceNotes(ls, kind)))
                       /\ SectionSize(ls) = SectionSize(Front) + LineSize(ls[Len(ls)]))
\* combining is idempotent, and changes neither what fields are present nor the members of any list
CombineOk == Joinable(ls) =>
             LET c == Combine(ls) IN
             /\ Combine(c) = c
             /\ \A n \in DOMAIN Table : Present(ls, n) = Present(c, n)
             /\ \A n \in AsIs \cup Lowered : PlainParsed(ls, n) = PlainParsed(c, n)
\* a field is never both misplaced and in use, and belongs somewhere
Placed == \A n \in DOMAIN Table : Table[n].req \/ Table[n].resp
Emit == ls = <<>> \/ PrintT("SCN " \o ToJson([kind |-> kind, ls |-> ls]))
=============================================================================
