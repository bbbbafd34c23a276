-------------------------- MODULE CdnCacheControl --------------------------
(* CDN-Cache-Control: the directives as a Structured Fields dictionary (RFC 9213). *)
EXTENDS CacheControl, StructuredFields
CdnVocab == {"CDN_CACHE_CONTROL_PRESENT", "BAD_CDN_CC_TYPE"} \cup SfVocab
CdnF == "field-cdn-cache-control"
CdnBad(d, v) == \/ d \in IntDirs /\ Ty(v) # "i"
                \/ d \in FlagDirs /\ v # "True"
                \/ d \in TextDirs /\ Ty(v) # "s" /\ v # "True"
CdnNotes(ls, kind) ==
  LET r == SfField(ls, "cdn-cache-control", "dictionary") IN
  IF kind # "response" \/ ~Present(ls, "cdn-cache-control") THEN <<>>
  ELSE SfNotes(r, "cdn-cache-control")
       \o (IF ~r.ok THEN <<>>
           ELSE <<"CDN_CACHE_CONTROL_PRESENT@" \o CdnF>>
                \o Cat([k \in 1..Len(r.q) |-> One(CdnBad(r.q[k].k, r.q[k].v.v), "BAD_CDN_CC_TYPE(" \o r.q[k].k \o ")@" \o CdnF)]))
=============================================================================
