----------------------------- MODULE MC_Cache -----------------------------
(* Exhaustive exploration of the caching decision; every finished decision is emitted as a scenario to
   replay against the implementation.                                                                   *)
EXTENDS Cache, TLC, Json

CONSTANTS Dirs,      \* directives that may be present
          Statuses, Exps, Dates, Ages, Reqs, Times, Varys, Vals, Lives
VARIABLE k           \* the abstract exchange being decided
Now == 1700000000
DateOf(x) == CASE x = "none" -> None [] x = "now" -> Now [] x = "old" -> Now - 100 [] x = "future" -> Now + 100 [] x = "bad" -> None
ExpOf(x) == CASE x = "none" -> None [] x = "past" -> Now - 200 [] x = "now" -> Now [] x = "future" -> Now + 200 [] x = "bad" -> None
AgeOf(x) == CASE x = "none" -> 0 [] x = "bad" -> 0 [] x = "zero" -> 0 [] x = "small" -> 30 [] x = "large" -> 400
MA(x) == CASE x = "fresh" -> 300 [] x = "zero" -> 0 [] x = "mixed" -> 0
SM(x) == CASE x = "fresh" -> 300 [] x = "zero" -> 0 [] x = "mixed" -> 300
Abs(x) ==
  LET cc == [d \in x.dirs |-> IF d = "max-age" THEN MA(x.life) ELSE IF d = "s-maxage" THEN SM(x.life) ELSE 0]
      hasExp == x.exp # "none"
      rt == IF x.times = "none" THEN None ELSE Now
      dt == DateOf(x.date)
      el == (IF ExpOf(x.exp) = None THEN 0 ELSE ExpOf(x.exp)) - (IF dt # None THEN dt ELSE rt)
      lp == IF "max-age" \in x.dirs THEN cc["max-age"] ELSE IF hasExp /\ rt # None THEN el ELSE 0
      ls == IF "s-maxage" \in x.dirs THEN cc["s-maxage"] ELSE lp
  IN [varyStar |-> x.vary = "star", hasDate |-> x.date # "none", hasExpires |-> hasExp, hasLM |-> x.val = "lm",
      date |-> dt, expires |-> ExpOf(x.exp), lm |-> x.val = "lm", etag |-> x.val = "etag",
      cc |-> cc, age |-> AgeOf(x.age), status |-> "i" \o x.status,
      req |-> x.req # "none", method |-> IF x.req = "post" THEN "POST" ELSE IF x.req = "head" THEN "HEAD" ELSE "GET",
      auth |-> x.req \in {"auth"}, rt |-> rt, qt |-> IF x.times = "both" THEN Now - 7 ELSE None, lifeDiffer |-> ls # lp]
Valid(x) == x.times = "both" => x.req # "none"
MCInit == \E x \in [dirs : SUBSET Dirs, status : Statuses, exp : Exps, date : Dates, age : Ages, req : Reqs,
                    times : Times, vary : Varys, val : Vals, life : Lives] :
             Valid(x) /\ k = x /\ StartWith(Abs(x))
MCNext == Decide /\ UNCHANGED k
MCSpec == MCInit /\ [][MCNext]_<<vars, k>>
Emit == pc # "done" \/ PrintT("SCN " \o ToJson(k))
=============================================================================
