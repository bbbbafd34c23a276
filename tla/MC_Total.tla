----------------------------- MODULE MC_Total -----------------------------
(* Every life of a linter, with arguments of every sort. *)
EXTENDS Totality
CONSTANTS Sorts, MaxChunks
VARIABLES kind, calls
\* a call is its name and the sort of its argument
Name(k) == calls[k][1]
Names == [k \in 1..Len(calls) |-> Name(k)]
SortsOf(c) == CASE c = "link" -> {"fresh", "done"} [] c = "top" -> Sorts [] c = "headers" -> Sorts \cup {"empty"} [] c = "chunk" -> {"empty", "plain", "coded"} [] c = "finish" -> {"none", "cut", "empty"} \cup Sorts
Init == kind \in {"request", "response"} /\ calls = <<>>
Call(c) == /\ MayFollow(Names, c)
           /\ c = "chunk" => CountIn(Names, "chunk") < MaxChunks
           /\ \E s \in SortsOf(c) : calls' = Append(calls, <<c, s>>)
           /\ UNCHANGED kind
Next == \E c \in SeqSet(CallKinds) : Call(c)
Spec == Init /\ [][Next]_<<kind, calls>>
\* no life gets stuck before its end, and none goes on after it
Alive == ~Ended(Names) => \E c \in SeqSet(CallKinds) : MayFollow(Names, c)
CanEnd == ~Ended(Names) => MayFollow(Names, "finish")
EndsOnce == Ended(Names) => Name(Len(calls)) = "finish" /\ \A c \in SeqSet(CallKinds) : ~MayFollow(Names, c)
Lives == IsLife(Names)
Ordered == \A a, b \in 1..Len(calls) : a < b /\ Name(a) # "link" /\ Name(b) # "link" => Rank(Name(a)) <= Rank(Name(b))
Emit == ~Ended(Names) \/ PrintT("SCN " \o ToJson([kind |-> kind, calls |-> calls]))
=============================================================================
