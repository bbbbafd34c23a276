------------------------------- MODULE MC_Cc -------------------------------
(* Cache-Control sections built member by member, on the same line or a new one. *)
EXTENDS CdnCacheControl
CONSTANTS Alphabet, MaxMembers, Kinds
VARIABLES kind, lines        \* lines: sequence of sequences of members
Init == kind \in Kinds /\ lines = <<>>
Total == Len(Cat(lines))
AddLine == Total < MaxMembers /\ \E x \in Alphabet : lines' = Append(lines, <<x>>) /\ UNCHANGED kind
AddMember == lines # <<>> /\ Total < MaxMembers
             /\ \E x \in Alphabet : lines' = [lines EXCEPT ![Len(lines)] = Append(@, x)] /\ UNCHANGED kind
Next == AddLine \/ AddMember
Spec == Init /\ [][Next]_<<kind, lines>>
Sec(q) == [k \in 1..Len(q) |-> <<"Cache-Control", Join(q[k], ", ")>>]
Joined == <<Cat(lines)>>
Flat == Cat(lines)
Rev == <<[k \in 1..Len(Flat) |-> Flat[Len(Flat) + 1 - k]]>>
Bag(q) == [x \in SeqSet(q) |-> CountIn(q, x)]
\* how members are spread over lines changes neither their meaning nor the verdicts on the whole
SplitFree == lines = <<>> \/ (CcParsed(Sec(lines)) = CcParsed(Sec(Joined))
                              /\ Bag(CcWholeNotes(Sec(lines), kind)) = Bag(CcWholeNotes(Sec(Joined), kind)))
\* order matters only through which duplicate is last
OrderFree == lines = <<>> \/ \/ \E k \in 1..Len(CcWholeNotes(Sec(lines), kind)) : StartsWith(CcWholeNotes(Sec(lines), kind)[k], "CC_DUP")
                             \/ Bag(CcWholeNotes(Sec(lines), kind)) = Bag(CcWholeNotes(Sec(Rev), kind))
\* a malformed directive takes no effect
BadHasNoEffect == lines = <<>> \/ \A d \in CcNames(Sec(lines)) \cap IntDirs : CcLast(Sec(lines), d).r.ok
Emit == lines = <<>> \/ PrintT("SCN " \o ToJson([kind |-> kind, lines |-> lines]))
=============================================================================
