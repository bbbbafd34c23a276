------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The caching decision for a response (RFC 9111): a sequence of steps,    *)
(* each of which may end the decision.                                     *)
(*                                                                         *)
(* m  - the facts about the exchange the decision is based on:             *)
(*      varyStar, hasDate, hasExpires, hasLM   presence of the fields       *)
(*      date, expires        instants (seconds) or None                     *)
(*      lm, etag             a usable validator is known                    *)
(*      cc                   directive -> value (lifetimes saturated)        *)
(*      age                  Age in seconds, 0 when missing or unusable      *)
(*      status               heuristically cacheable or not                 *)
(*      req                  there is a request; method; auth                *)
(*      rt, qt               start times of response and request or None    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == 0 - 2000000001
Max(a, b) == IF a > b THEN a ELSE b
Bool(x) == x # None

HeuristicStatus == {"i200", "i203", "i206", "i300", "i301", "i410"}

VARIABLES m, pc, priv, shar, age, lifeP, lifeS, explicit, heur, notes
vars == <<m, pc, priv, shar, age, lifeP, lifeS, explicit, heur, notes>>

\* a note of the decision: <<class, subject>>
Note(n, s) == n \o "@" \o s
CCF == "field-cache-control"

StartWith(msg) ==
  /\ m = msg /\ pc = "basic" /\ priv = TRUE /\ shar = TRUE
  /\ age = 0 /\ lifeP = 0 /\ lifeS = 0 /\ explicit = FALSE /\ heur = FALSE
  /\ notes = <<>>

Dir(d) == d \in DOMAIN m.cc
Add(q) == notes' = notes \o q
If1(b, x) == IF b THEN <<x>> ELSE <<>>

Basic ==
  /\ pc = "basic"
  /\ UNCHANGED <<m, age, lifeP, lifeS, explicit, heur>>
  /\ IF m.varyStar
     THEN /\ pc' = "done" /\ priv' = FALSE /\ shar' = FALSE /\ UNCHANGED notes
     ELSE /\ pc' = "storable" /\ UNCHANGED <<priv, shar>>
          /\ Add(If1(~m.hasDate, Note("DATE_CLOCKLESS", ""))
                 \o If1(~m.hasDate /\ (m.hasExpires \/ m.hasLM),
                        Note("DATE_CLOCKLESS_BAD_HDR", "field-expires field-last-modified")))

Allowed == Dir("public") \/ Dir("max-age") \/ Bool(m.expires) \/ m.status \in HeuristicStatus

Storable ==
  /\ pc = "storable"
  /\ UNCHANGED <<m, age, lifeP, lifeS, explicit, heur>>
  /\ \/ /\ m.req /\ m.method # "" /\ m.method \notin {"GET", "HEAD"}
        /\ pc' = "done" /\ priv' = FALSE /\ shar' = FALSE
        /\ Add(<<Note("STORE_METHOD_UNCACHEABLE", "method")>>)
     \/ /\ ~(m.req /\ m.method # "" /\ m.method \notin {"GET", "HEAD"})
        /\ Dir("no-store")
        /\ pc' = "done" /\ priv' = FALSE /\ shar' = FALSE
        /\ Add(<<Note("STORE_NO_STORE", CCF)>>)
     \/ /\ ~(m.req /\ m.method # "" /\ m.method \notin {"GET", "HEAD"})
        /\ ~Dir("no-store")
        /\ IF Dir("private") THEN
             /\ shar' = FALSE /\ pc' = "age" /\ UNCHANGED priv
             /\ Add(<<Note("STORE_PRIVATE_CC", CCF)>> \o If1(Dir("public"), Note("STORE_PRIVATE_PUBLIC_CONFLICT", CCF)))
           ELSE IF m.req /\ m.auth THEN
             /\ pc' = "age" /\ UNCHANGED priv
             /\ IF Dir("public") \/ Dir("must-revalidate") \/ Dir("s-maxage")
                THEN /\ UNCHANGED shar
                     /\ Add(<<Note("STORE_PUBLIC_AUTH(" \o (IF Dir("public") THEN "public"
                                      ELSE IF Dir("must-revalidate") THEN "must-revalidate" ELSE "s-maxage") \o ")", CCF)>>)
                ELSE /\ shar' = FALSE /\ Add(<<Note("STORE_PRIVATE_AUTH", CCF)>>)
           ELSE IF Allowed THEN
             /\ pc' = "age" /\ UNCHANGED <<priv, shar>> /\ Add(<<Note("STORE_STORABLE", CCF)>>)
           ELSE IF Dir("s-maxage") THEN
             /\ pc' = "age" /\ UNCHANGED shar /\ priv' = FALSE /\ Add(<<Note("STORE_STORABLE_SHARED_ONLY", CCF)>>)
           ELSE
             /\ pc' = "done" /\ priv' = FALSE /\ shar' = FALSE /\ Add(<<Note("STORE_UNSTORABLE", CCF)>>)

\* RFC 9111, 4.2.3
Apparent == IF Bool(m.rt) /\ m.rt # 0 /\ Bool(m.date) /\ m.date > 0 THEN Max(0, m.rt - m.date) ELSE 0
Delay == IF Bool(m.rt) /\ m.rt # 0 /\ Bool(m.qt) /\ m.qt # 0 THEN m.rt - m.qt ELSE 0
CurrentAge == Max(Apparent, m.age + Delay)
Age ==
  /\ pc = "age" /\ pc' = "fresh"
  /\ age' = CurrentAge
  /\ Add(If1(CurrentAge >= 1, Note("CURRENT_AGE", "field-age field-date")))
  /\ UNCHANGED <<m, priv, shar, lifeP, lifeS, explicit, heur>>

\* lifetimes
ExpLife == (IF Bool(m.expires) THEN m.expires ELSE 0) - (IF Bool(m.date) /\ m.date # 0 THEN m.date ELSE m.rt)
ExpUsable == m.hasExpires /\ Bool(m.rt) /\ m.rt # 0
LP == IF Dir("max-age") THEN m.cc["max-age"] ELSE IF ExpUsable THEN ExpLife ELSE 0
LS == IF Dir("s-maxage") THEN m.cc["s-maxage"] ELSE LP
Explicit == ExpUsable \/ Dir("max-age") \/ Dir("s-maxage")
FreshP == lifeP > age
FreshS == lifeS > age
LifeSubject == (IF Dir("max-age") \/ Dir("s-maxage") THEN "field-cache-control " ELSE "")
               \o "field-date" \o (IF ExpUsable THEN " field-expires" ELSE "")

Lifetime ==
  /\ pc = "fresh" /\ pc' = "verdict"
  /\ lifeP' = LP /\ lifeS' = LS /\ explicit' = Explicit
  /\ UNCHANGED <<m, priv, shar, age, heur, notes>>

Verdict ==
  /\ pc = "verdict"
  /\ UNCHANGED <<m, priv, shar, age, lifeP, lifeS, explicit>>
  /\ IF Dir("no-cache")
     THEN /\ pc' = "done" /\ UNCHANGED heur
          /\ Add(<<Note(IF m.lm \/ m.etag THEN "FRESHNESS_NO_CACHE" ELSE "FRESHNESS_NO_CACHE_NO_VALIDATOR", CCF)>>)
     ELSE /\ pc' = "stale"
          /\ heur' = (~explicit /\ m.status \in HeuristicStatus)
          /\ Add((IF explicit
                  THEN <<IF m.lifeDiffer THEN Note("FRESHNESS_SHARED_PRIVATE", LifeSubject)
                         ELSE IF FreshP \/ FreshS THEN Note("FRESHNESS_FRESH", LifeSubject)
                         ELSE Note("FRESHNESS_STALE_ALREADY", LifeSubject)>>
                       \o If1(Dir("max-age") /\ m.hasExpires, Note("CC_AND_EXPIRES", "field-cache-control field-expires"))
                  ELSE IF m.status \in HeuristicStatus THEN <<Note("FRESHNESS_HEURISTIC", "field-last-modified")>>
                  ELSE <<Note("FRESHNESS_NONE", "")>>)
                 \o If1(Dir("public") /\ (explicit \/ m.status \in HeuristicStatus), Note("STORE_PUBLIC_UNNECESSARY", CCF)))

Stale ==
  /\ pc = "stale" /\ pc' = "done"
  /\ Add(If1(Dir("stale-while-revalidate"), Note("STALE_WHILE_REVALIDATE", CCF))
         \o (IF Dir("stale-if-error") THEN <<Note("STALE_IF_ERROR", CCF)>>
             ELSE IF Dir("must-revalidate") THEN
                  IF FreshP THEN <<Note("FRESH_MUST_REVALIDATE", CCF)>>
                  ELSE If1(explicit, Note("STALE_MUST_REVALIDATE", CCF))
             ELSE IF Dir("proxy-revalidate") \/ Dir("s-maxage") THEN
                  IF FreshS THEN <<Note("FRESH_PROXY_REVALIDATE", CCF)>>
                  ELSE If1(explicit, Note("STALE_PROXY_REVALIDATE", CCF))
             ELSE <<Note("STALE_SERVABLE", CCF)>>))
  /\ UNCHANGED <<m, priv, shar, age, lifeP, lifeS, explicit, heur>>

Decide == Basic \/ Storable \/ Age \/ Lifetime \/ Verdict \/ Stale

----------------------------------------------------------------------------
(* What the decision must guarantee, whatever the message.                 *)
HasNote(n) == \E k \in 1..Len(notes) : notes[k] = n
NoteCount(set) == Cardinality({k \in 1..Len(notes) : notes[k] \in set})
Done == pc = "done"
StoreNotes == {Note("STORE_METHOD_UNCACHEABLE", "method"), Note("STORE_NO_STORE", CCF), Note("STORE_PRIVATE_CC", CCF),
   Note("STORE_PUBLIC_AUTH(public)", CCF), Note("STORE_PUBLIC_AUTH(must-revalidate)", CCF),
   Note("STORE_PUBLIC_AUTH(s-maxage)", CCF), Note("STORE_PRIVATE_AUTH", CCF), Note("STORE_STORABLE", CCF),
   Note("STORE_STORABLE_SHARED_ONLY", CCF), Note("STORE_UNSTORABLE", CCF)}
NoStoreNeverStored == Done /\ Dir("no-store") => ~priv /\ ~shar
VaryStarNeverStored == Done /\ m.varyStar => ~priv /\ ~shar /\ notes = <<>>
UnsafeNeverStored == Done /\ m.req /\ m.method \notin {"", "GET", "HEAD"} => ~priv /\ ~shar
PrivateNotShared == Done /\ Dir("private") => ~shar
AuthNotSharedUnlessAllowed ==
  Done /\ m.req /\ m.auth /\ shar => Dir("public") \/ Dir("must-revalidate") \/ Dir("s-maxage")
OneStoreVerdict == Done /\ ~m.varyStar => NoteCount(StoreNotes) = 1
NothingAllows == Done /\ ~m.req /\ ~Allowed /\ ~Dir("s-maxage") /\ ~Dir("private") => ~priv /\ ~shar
NoFreshnessIfUnstored == Done /\ ~priv /\ ~shar => explicit = FALSE /\ heur = FALSE /\ lifeP = 0
AgeNonNegative == age >= 0
SharedOverride == Done /\ pc = "done" /\ explicit /\ Dir("s-maxage") => lifeS = m.cc["s-maxage"]
NoCacheMeansNoStaleVerdict ==
  Done /\ Dir("no-cache") => ~HasNote(Note("STALE_SERVABLE", CCF)) /\ ~HasNote(Note("STALE_IF_ERROR", CCF))
RevalidateForbidsStale ==
  Done /\ Dir("must-revalidate") /\ ~Dir("stale-if-error") => ~HasNote(Note("STALE_SERVABLE", CCF))
FreshnessVerdicts == {"FRESHNESS_SHARED_PRIVATE", "FRESHNESS_FRESH", "FRESHNESS_STALE_ALREADY"}
CacheInv == /\ NoStoreNeverStored /\ VaryStarNeverStored /\ UnsafeNeverStored /\ PrivateNotShared
            /\ AuthNotSharedUnlessAllowed /\ OneStoreVerdict /\ NothingAllows /\ NoFreshnessIfUnstored
            /\ AgeNonNegative /\ SharedOverride /\ NoCacheMeansNoStaleVerdict /\ RevalidateForbidsStale
=============================================================================
