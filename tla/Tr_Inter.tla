----------------------------- MODULE Tr_Inter -----------------------------
(* t.in: sched, and the lives of the units; t.out.units: for each unit, what is known of its linters
   (facts: name -> digest) when it ran alone in a fresh process, in this schedule, in threads of
   their own, once more, and after being pickled; whether it was freed; and pairs of notes (a, b: what
   they say of what), and whether they called themselves equal. *)
EXTENDS TraceRun, Interleave
Differ(a, b, how) == {how \o ": " \o f : f \in {x \in DOMAIN a \cup DOMAIN b : x \notin DOMAIN a \/ x \notin DOMAIN b \/ a[x] # b[x]}}
UnitBad(u) == Differ(u.alone, u.sched, "changed by another linter") \cup Differ(u.alone, u.threads, "changed by another thread")
              \cup Differ(u.alone, u.again, "not the same again") \cup Differ(u.kept, u.pickled, "lost in pickling")
              \cup Clause(u.freed, "not freed")
              \cup Clause(\A k \in 1..Len(u.pairs) : (u.pairs[k].a = u.pairs[k].b) <=> u.pairs[k].eq, "equality is not saying the same")
              \cup Clause(\A k \in 1..Len(u.pairs) : u.pairs[k].eq # u.pairs[k].ne, "equal and unequal at once")
              \cup BagDiff(SelectSeq(u.relpaired, LAMBDA x : Before(Before(x, "@"), "(") \notin OnRequest), u.relalone)
JudgeC18(t) == Clause(Interleaving(t.in.sched, t.in.lens), "not a schedule of these lives")
               \cup UNION {UnitBad(t.out.units[k]) : k \in 1..Len(t.out.units)}
=============================================================================
