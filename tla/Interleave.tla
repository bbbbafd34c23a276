---------------------------- MODULE Interleave ----------------------------
(***************************************************************************)
(* Several linters in one process, their steps in any order.  What a       *)
(* linter knows is a function of its own steps, and of those of the        *)
(* message it is related to; nothing else is shared.                       *)
(***************************************************************************)
EXTENDS Text
\* a step of unit u: the unit's own history grows, no other's does
Grow(hist, u, s) == [hist EXCEPT ![u] = Append(@, s)]
\* a schedule: the unit that moves, move by move
Interleaving(sched, lens) == /\ \A u \in 1..Len(lens) : CountIn(sched, u) = lens[u]
                             /\ \A k \in 1..Len(sched) : sched[k] \in 1..Len(lens)
RECURSIVE Play(_, _, _)
Play(sched, k, hist) == IF k > Len(sched) THEN hist ELSE Play(sched, k + 1, Grow(hist, sched[k], Len(hist[sched[k]]) + 1))
\* the one thing a response says on its request
OnRequest == {"STORE_METHOD_UNCACHEABLE"}
=============================================================================
