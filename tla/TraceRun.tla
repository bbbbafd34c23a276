----------------------------- MODULE TraceRun -----------------------------
(* Walks the recorded traces; each one is judged by the specification operator Judge. *)
EXTENDS Obs
CONSTANT Judge(_)
VARIABLE i
TraceInit == i = 0
TraceNext == /\ i < Len(Trace)
             /\ i' = i + 1
             /\ LET t == Trace[i + 1] IN
                Report(t, IF t.out.raised # "" THEN {"raised:" \o t.out.raised} ELSE Judge(t))
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceDone == i < Len(Trace) \/ PrintT("DONE " \o ToString(i))
=============================================================================
