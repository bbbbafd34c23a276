----------------------------- MODULE MC_Locale -----------------------------
(* Contexts that enter and leave scopes and make one another, in every order.  Shared = TRUE keeps
   one stack for all of them, and violates Isolated; Forget = TRUE leaves the scope of an exception
   open, and violates Scoped. *)
EXTENDS Locale
CONSTANTS Locs, MaxCtx, MaxOps, Shared, Forget
VARIABLES cs, ops, was
vars == <<cs, ops, was>>
\* was: for each context, what was current before each of its open scopes
Init == cs = Root /\ ops = <<>> /\ was = << <<>> >>
Op == {[op |-> "enter", c |-> c, loc |-> l, n |-> 0, kind |-> ""] : c \in 1..MaxCtx, l \in Locs}
      \cup {[op |-> "exit", c |-> c, loc |-> "", n |-> 0, kind |-> ""] : c \in 1..MaxCtx}
      \cup {[op |-> "raise", c |-> c, loc |-> "", n |-> n, kind |-> ""] : c \in 1..MaxCtx, n \in 1..2}
      \cup {[op |-> "spawn", c |-> c, loc |-> "", n |-> 0, kind |-> k] : c \in 1..MaxCtx, k \in {"thread", "task"}}
Cut(s, n) == SubSeq(s, 1, Len(s) - n)
Real(o) == LET d == IF Forget /\ o.op = "raise" THEN cs ELSE Do(cs, o) IN
           IF Shared THEN [k \in 1..Len(d) |-> [d[k] EXCEPT !.scopes = d[IF o.c <= Len(d) THEN o.c ELSE 1].scopes]] ELSE d
Step(o) == /\ Len(ops) < MaxOps /\ Can(cs, o) /\ (o.op = "spawn" => Len(cs) < MaxCtx)
           /\ cs' = Real(o) /\ ops' = Append(ops, o)
           /\ was' = CASE o.op = "enter" -> [was EXCEPT ![o.c] = Append(@, Current(cs[o.c]))]
                       [] o.op = "exit" -> [was EXCEPT ![o.c] = Cut(@, 1)]
                       [] o.op = "raise" -> [was EXCEPT ![o.c] = Cut(@, o.n)]
                       [] o.op = "spawn" -> Append(was, <<>>)
Next == \E o \in Op : Step(o)
Spec == Init /\ [][Next]_vars
LastOp == ops'[Len(ops')]
\* nothing one context does changes what another produces
Isolated == [][\A k \in 1..Len(cs) : k # LastOp.c => Current(cs'[k]) = Current(cs[k])]_vars
\* leaving scopes brings back what was current when the outermost of them was entered
Scoped == [][LastOp.op \in {"exit", "raise"} =>
             LET c == LastOp.c n == IF LastOp.op = "exit" THEN 1 ELSE LastOp.n IN
             Current(cs'[c]) = was[c][Len(was[c]) - n + 1]]_vars
\* a new context starts as its kind says
Inherits == [][LastOp.op = "spawn" => Current(cs'[Len(cs')]) = IF LastOp.kind = "thread" THEN Default ELSE Current(cs[LastOp.c])]_vars
Matches == Played(ops, Root) = cs /\ AllCan(ops, Root)
Depths == \A k \in 1..Len(cs) : Len(was[k]) = Len(cs[k].scopes)
Emit == Len(ops) < MaxOps \/ PrintT("SCN " \o ToJson([ops |-> ops]))
=============================================================================
