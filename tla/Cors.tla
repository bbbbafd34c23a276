-------------------------------- MODULE Cors --------------------------------
(***************************************************************************)
(* Cross-origin resource sharing: preflights, and the comparison of what a *)
(* response allows with the origin that asked (Fetch standard, RFC 6454).  *)
(***************************************************************************)
EXTENDS Uri
ReqMeth == "access-control-request-method"
ReqHdrs == "access-control-request-headers"
IsPreflight(q) == q.top[1] = "OPTIONS" /\ Present(q.headers, "origin") /\ Present(q.headers, ReqMeth)

\* an origin: null, or scheme "://" host [ ":" port ]
SerializedOrigin == S(<<Scheme, L("://"), Host, Opt(S(<<Colon, Port>>))>>)
OriginText(ls) == OneOf(ls, "origin")
OriginValid(ls) == OriginText(ls) = "null" \/ FullMatch(SerializedOrigin, Before(OriginText(ls), " "))
OriginOf(ls) == IF ~OriginValid(ls) THEN "invalid"
                ELSE IF OriginText(ls) = "null" THEN "null"
                ELSE LET o == Before(OriginText(ls), " ") p == HostPort(Parts(o).authority[2]) IN
                     Parts(o).scheme[2] \o "://" \o p.host \o (IF p.port = "" THEN "" ELSE ":" \o Canon(p.port))
OriginNotes(ls) == IF ~Present(ls, "origin") \/ OriginText(ls) = "null" THEN <<>>
                   ELSE One(Has(OriginText(ls), " "), NoteKey("ORIGIN_MULTIPLE_VALUES", "field-origin"))
                        \o One(~OriginValid(ls), NoteKey("BAD_ORIGIN_SYNTAX", "field-origin"))

CorsVocab == {"CORS_PREFLIGHT_REQUEST", "CORS_PREFLIGHT_REQ_METHOD_WRONG", "CORS_PREFLIGHT_REQ_NO_ORIGIN", "CORS_PREFLIGHT_REQ_NO_METHOD",
  "CORS_PREFLIGHT_RESPONSE", "CORS_PREFLIGHT_ONLY", "ACAO_MULTIPLE_VALUES", "CORS_ORIGIN_NULL", "CORS_ORIGIN_STAR", "CORS_ORIGIN_MATCH",
  "CORS_ORIGIN_MISMATCH", "ORIGIN_MULTIPLE_VALUES", "BAD_ORIGIN_SYNTAX"}
RequestCors(q) ==
  LET h == q.headers acrm == Present(h, ReqMeth) any == acrm \/ Present(h, ReqHdrs) IN
  One(IsPreflight(q), NoteKey("CORS_PREFLIGHT_REQUEST", "field-access-control-request-headers field-access-control-request-method method"))
  \o One(any /\ q.top[1] # "OPTIONS", NoteKey("CORS_PREFLIGHT_REQ_METHOD_WRONG", "method"))
  \o One(any /\ ~Present(h, "origin"), NoteKey("CORS_PREFLIGHT_REQ_NO_ORIGIN", "field-origin"))
  \o One(any /\ ~acrm, NoteKey("CORS_PREFLIGHT_REQ_NO_METHOD", "field-access-control-request-headers"))
  \o OriginNotes(h)
HdrSubject == "header-access-control-allow-"
PreflightOnly(h) == SelectSeq(<<"Access-Control-Allow-Headers", "Access-Control-Allow-Methods", "Access-Control-Max-Age">>, LAMBDA n : Present(h, Lower(n)))
Allowed(h) == OneOf(h, "access-control-allow-origin")
AllowNote(a, o) == IF a = "null" THEN "CORS_ORIGIN_NULL" ELSE IF a = "*" THEN "CORS_ORIGIN_STAR"
                   ELSE IF a = o THEN "CORS_ORIGIN_MATCH" ELSE "CORS_ORIGIN_MISMATCH"
Asked(m) == HasF(m, "related") /\ Present(m.related.headers, "origin")
ResponseCors(m) ==
  LET h == m.headers answers == HasF(m, "related") /\ IsPreflight(m.related) acao == Present(h, "access-control-allow-origin") IN
  One(answers, NoteKey("CORS_PREFLIGHT_RESPONSE", ""))
  \o One(~answers /\ PreflightOnly(h) # <<>>, NoteKey("CORS_PREFLIGHT_ONLY", HdrSubject \o "headers"))
  \o One(acao /\ AnyIn(Allowed(h), {" ", ","}), NoteKey("ACAO_MULTIPLE_VALUES", HdrSubject \o "origin"))
  \o One(acao /\ Asked(m), NoteKey(AllowNote(Allowed(h), OriginOf(m.related.headers)), HdrSubject \o "origin"))
CorsNotes(m) == IF m.kind = "request" THEN RequestCors(m) ELSE ResponseCors(m)
\* what the comparison says was asked for
AskedText(m) == "s" \o OriginOf(m.related.headers)
=============================================================================
