----------------------------- MODULE MC_Inter -----------------------------
(* All the interleavings of a few lives.  Each unit has its own memory; a shared one (Leak) shows
   that the invariant tells them apart. *)
EXTENDS Interleave
CONSTANTS Units2, Units3, Leak
VARIABLES lens, sched, hist, shared
Init == /\ lens \in [1..2 -> Units2] \cup [1..3 -> Units3]
        /\ sched = <<>> /\ hist = [u \in 1..Len(lens) |-> <<>>] /\ shared = 0
Move(u) == /\ Len(hist[u]) < lens[u]
           /\ sched' = Append(sched, u)
           /\ hist' = Grow(hist, u, Len(hist[u]) + 1 + (IF Leak THEN shared ELSE 0))
           /\ shared' = IF Leak THEN 1 ELSE 0
           /\ UNCHANGED lens
Next == \E u \in 1..Len(lens) : Move(u)
Spec == Init /\ [][Next]_<<lens, sched, hist, shared>>
Done == \A u \in 1..Len(lens) : Len(hist[u]) = lens[u]
\* each unit has what it has alone
Alone(u) == [k \in 1..Len(hist[u]) |-> k]
Independent == \A u \in 1..Len(lens) : hist[u] = Alone(u)
Schedule == Done => Interleaving(sched, lens) /\ Play(sched, 1, [u \in 1..Len(lens) |-> <<>>]) = hist
\* the last move of a unit can always be made: nobody waits for another
NoWaiting == \A u \in 1..Len(lens) : Len(hist[u]) < lens[u] => ENABLED Move(u)
Emit == ~Done \/ PrintT("SCN " \o ToJson([lens |-> lens, sched |-> sched]))
=============================================================================
