----------------------------- MODULE Tr_Cache -----------------------------
(***************************************************************************)
(* Replays recorded exchanges through the caching decision.  The facts m   *)
(* are derived from the message text by the specification's own reading of *)
(* the fields; each trace is one behaviour of Decide, and what the          *)
(* implementation recorded must be what the final state says.               *)
(***************************************************************************)
EXTENDS Cache, CacheControl, DateRules

VARIABLE tid
T == Trace[tid]

Instant(dv) == IF ~dv.ok THEN None ELSE IF InRange(dv) THEN Epoch(dv) ELSE IF dv.days < 0 THEN 0 - Cap ELSE Cap
LowerMembers(ls, name) == LET q == Members(ls, name) IN {Lower(q[k][2]) : k \in 1..Len(q)}
StatusText(top) == LET r == IntRec(top[2]) IN IF r.ok THEN IntText(r) ELSE "None"

Facts(t) ==
  LET in == t.in
      ls == in.headers
      hasReq == HasF(in, "related")
      names == CcNames(ls)
      r == [d \in names |-> CcLast(ls, d).r]
      cc == [d \in names |-> IF d \in IntDirs THEN IntVal(r[d]) ELSE 0]
      dt == Instant(FirstDate(ls, "date"))
      ex == Instant(FirstDate(ls, "expires"))
      rt == IF HasF(in, "start") THEN in.start ELSE None
      hasExp == Present(ls, "expires")
      base == IF "max-age" \in names THEN "i" ELSE IF hasExp /\ Bool(rt) /\ rt # 0 THEN "x" ELSE "z"
      lp == IF base = "i" THEN IntText(r["max-age"])
            ELSE IF base = "x" THEN "i" \o ToString((IF Bool(ex) THEN ex ELSE 0) - (IF Bool(dt) /\ dt # 0 THEN dt ELSE rt))
            ELSE "i0"
      lsh == IF "s-maxage" \in names THEN IntText(r["s-maxage"]) ELSE lp
  IN [varyStar |-> "*" \in LowerMembers(ls, "vary"),
      hasDate |-> Present(ls, "date"), hasExpires |-> hasExp, hasLM |-> Present(ls, "last-modified"),
      date |-> dt, expires |-> ex, lm |-> FirstDate(ls, "last-modified").ok, etag |-> Present(ls, "etag"),
      cc |-> cc, age |-> AgeValue(ls), status |-> StatusText(in.top),
      req |-> hasReq,
      method |-> IF hasReq THEN in.related.top[1] ELSE "",
      auth |-> hasReq /\ Present(in.related.headers, "authorization"),
      rt |-> rt,
      qt |-> IF hasReq /\ HasF(in.related, "start") THEN in.related.start ELSE None,
      lifeDiffer |-> lsh # lp]

TInit == \E k \in 1..Len(Trace) : /\ tid = k
                                   /\ IF Trace[k].out.raised = "" THEN StartWith(Facts(Trace[k]))
                                      ELSE /\ Report(Trace[k], {"raised:" \o Trace[k].out.raised}) /\ TLCSet(1, TLCGet(1) + 1)
                                           /\ m = <<>> /\ pc = "raised" /\ priv = TRUE /\ shar = TRUE /\ age = 0 /\ lifeP = 0
                                           /\ lifeS = 0 /\ explicit = FALSE /\ heur = FALSE /\ notes = <<>>
TNext == Decide /\ UNCHANGED tid

StoreVocab == {"DATE_CLOCKLESS", "DATE_CLOCKLESS_BAD_HDR", "STORE_METHOD_UNCACHEABLE", "STORE_NO_STORE", "STORE_PRIVATE_CC",
  "STORE_PRIVATE_PUBLIC_CONFLICT", "STORE_PUBLIC_AUTH", "STORE_PRIVATE_AUTH", "STORE_STORABLE", "STORE_STORABLE_SHARED_ONLY",
  "STORE_UNSTORABLE"}
AgeVocab == {"CURRENT_AGE"}
FreshVocab == {"FRESHNESS_NO_CACHE", "FRESHNESS_NO_CACHE_NO_VALIDATOR", "FRESHNESS_SHARED_PRIVATE", "FRESHNESS_FRESH",
  "FRESHNESS_STALE_ALREADY", "FRESHNESS_HEURISTIC", "FRESHNESS_NONE", "CC_AND_EXPIRES", "STORE_PUBLIC_UNNECESSARY"}
StaleVocab == {"STALE_WHILE_REVALIDATE", "STALE_IF_ERROR", "FRESH_MUST_REVALIDATE", "STALE_MUST_REVALIDATE",
  "FRESH_PROXY_REVALIDATE", "STALE_PROXY_REVALIDATE", "STALE_SERVABLE"}

Part == IOEnv.PART       \* which property is being decided: store, age, fresh or stale
ClassOf(key) == Before(Before(key, "@"), "(")
Want(V) == SelectSeq(notes, LAMBDA n : ClassOf(n) \in V)
\* the method verdict is recorded on the request
OnRequest == {"STORE_METHOD_UNCACHEABLE"}
RelNotes == IF HasF(T.out, "rel") THEN T.out.rel.notes ELSE <<>>
B(x) == IF x THEN "True" ELSE "False"
Small(x) == x < Cap - 200000000 /\ x > 200000000 - Cap /\ m.date # Cap /\ m.expires # Cap
CK == T.out.caching
Attr(name, val) == Clause(HasF(CK, name) /\ CK[name] = val, "attribute:" \o name \o "=" \o (IF HasF(CK, name) THEN CK[name] ELSE "?") \o " not " \o val)
Shows(cls, field, text) == \A k \in 1..Len(T.out.notes) :
     T.out.notes[k].n = cls => Contains(T.out.notes[k][field], text)
Says(cls, field, text) == Clause(Shows(cls, field, text), "text:" \o cls \o " does not say " \o text)

StoreBad ==
  NotesDiff(T.out.notes, StoreVocab \ OnRequest, Want(StoreVocab \ OnRequest))
  \cup BagDiff(Owned(RelNotes, StoreVocab), Want(OnRequest))
  \cup Attr("store_private", B(priv)) \cup Attr("store_shared", B(shar))
AgeBad == NotesDiff(T.out.notes, AgeVocab, Want(AgeVocab))
          \cup (IF Small(age) THEN Attr("age", "i" \o ToString(age)) \cup Says("CURRENT_AGE", "sm", " " \o Duration(age) \o ".")
                ELSE {})
Ran == lifeP # 0 \/ lifeS # 0 \/ explicit \/ HasNote(Note("FRESHNESS_NONE", "")) \/ heur
FreshBad == NotesDiff(T.out.notes, FreshVocab, Want(FreshVocab))
   \cup (IF Small(lifeP) THEN Attr("freshness_lifetime_private", "i" \o ToString(lifeP)) ELSE {})
   \cup (IF Small(lifeS) THEN Attr("freshness_lifetime_shared", "i" \o ToString(lifeS)) ELSE {})
   \cup (IF Ran THEN Attr("is_fresh", B(FreshP)) \cup Attr("is_shared_fresh", B(FreshS)) ELSE {})
   \cup (IF Small(lifeP) /\ Small(lifeS) /\ Small(age) THEN
           Says("FRESHNESS_FRESH", "sm", " " \o Duration(lifeP - age) \o ".")
           \cup Says("FRESHNESS_FRESH", "dt", "(here, " \o Duration(age) \o ")")
           \cup Says("FRESHNESS_FRESH", "dt", "(in this case, " \o Duration(lifeP) \o ")")
           \cup Says("FRESHNESS_STALE_ALREADY", "dt", "(here, " \o Duration(age) \o ")")
           \cup Says("FRESHNESS_STALE_ALREADY", "dt", "(in this case, " \o Duration(lifeP) \o ")")
           \cup Says("FRESHNESS_SHARED_PRIVATE", "sm",
                     (IF FreshP THEN "fresh" ELSE "stale") \o " for " \o Duration(lifeP - age) \o " ("
                     \o (IF FreshS THEN "fresh" ELSE "stale") \o " for " \o Duration(lifeS - age) \o " in shared")
         ELSE {})
StaleBad == NotesDiff(T.out.notes, StaleVocab, Want(StaleVocab))

CheckDone == pc # "done" \/
  /\ Report(T, CASE Part = "store" -> StoreBad [] Part = "age" -> AgeBad [] Part = "fresh" -> FreshBad [] Part = "stale" -> StaleBad)
  /\ TLCSet(1, TLCGet(1) + 1)
TraceInv == CacheInv
ASSUME TLCSet(1, 0)
Post == PrintT("DONE " \o ToString(TLCGet(1)))
TSpec == TInit /\ [][TNext]_<<vars, tid>>
=============================================================================
