------------------------------- MODULE Status -------------------------------
(***************************************************************************)
(* What a status code calls for (RFC 9110 section 15 and the registry):    *)
(* the verdicts that depend only on the code, the related request and the  *)
(* presence of response fields.                                            *)
(*   m: top, headers of the response; m.related: the request, when known   *)
(***************************************************************************)
EXTENDS Sections

Registered == {"100", "101", "102", "103", "104", "200", "201", "202", "203", "204", "205", "206", "207", "208", "226",
  "300", "301", "302", "303", "304", "305", "306", "307", "308",
  "400", "401", "402", "403", "404", "405", "406", "407", "408", "409", "410", "411", "412", "413", "414", "415", "416", "417",
  "418", "421", "422", "423", "424", "425", "426", "428", "429", "431", "451",
  "500", "501", "502", "503", "504", "505", "506", "507", "508", "510", "511"}
\* codes whose mere use is explained
Explained == ("103" :> "STATUS_EARLY_HINTS") @@ ("104" :> "STATUS_UPLOAD_RESUMPTION_SUPPORTED") @@ ("208" :> "STATUS_ALREADY_REPORTED")
  @@ ("305" :> "STATUS_DEPRECATED") @@ ("306" :> "STATUS_RESERVED") @@ ("400" :> "STATUS_BAD_REQUEST") @@ ("403" :> "STATUS_FORBIDDEN")
  @@ ("404" :> "STATUS_NOT_FOUND") @@ ("409" :> "STATUS_CONFLICT") @@ ("410" :> "STATUS_GONE") @@ ("413" :> "STATUS_REQUEST_ENTITY_TOO_LARGE")
  @@ ("415" :> "STATUS_UNSUPPORTED_MEDIA_TYPE") @@ ("418" :> "STATUS_IM_A_TEAPOT") @@ ("421" :> "STATUS_MISDIRECTED_REQUEST")
  @@ ("425" :> "STATUS_TOO_EARLY") @@ ("428" :> "STATUS_PRECONDITION_REQUIRED") @@ ("429" :> "STATUS_TOO_MANY_REQUESTS")
  @@ ("431" :> "STATUS_REQUEST_HEADER_FIELDS_TOO_LARGE") @@ ("451" :> "STATUS_UNAVAILABLE_FOR_LEGAL_REASONS")
  @@ ("500" :> "STATUS_INTERNAL_SERVICE_ERROR") @@ ("501" :> "STATUS_NOT_IMPLEMENTED") @@ ("502" :> "STATUS_BAD_GATEWAY")
  @@ ("503" :> "STATUS_SERVICE_UNAVAILABLE") @@ ("504" :> "STATUS_GATEWAY_TIMEOUT") @@ ("505" :> "STATUS_VERSION_NOT_SUPPORTED")
  @@ ("508" :> "STATUS_LOOP_DETECTED") @@ ("511" :> "STATUS_NETWORK_AUTHENTICATION_REQUIRED")
SafeMethods == {"GET", "HEAD", "OPTIONS", "TRACE"}
Negotiation == {"accept", "accept-charset", "accept-encoding", "accept-language"}
Preconditions == {"if-match", "if-none-match", "if-modified-since", "if-unmodified-since", "if-range"}
Metadata == <<"content-type", "content-encoding", "content-language">>

StatusVocab == {Explained[c] : c \in DOMAIN Explained}
  \cup {"UNEXPECTED_CONTINUE", "UPGRADE_NOT_REQUESTED", "CREATED_SAFE_METHOD", "CREATED_WITHOUT_LOCATION", "PARTIAL_NOT_REQUESTED",
        "PARTIAL_WITHOUT_RANGE", "REDIRECT_WITHOUT_LOCATION", "NO_DATE_304", "HEADER_SHOULD_NOT_BE_IN_304", "STATUS_405_METHOD_IN_ALLOW",
        "STATUS_METHOD_NOT_ALLOWED", "STATUS_406_WITHOUT_NEGOTIATION", "STATUS_NOT_ACCEPTABLE", "STATUS_412_WITHOUT_PRECONDITION",
        "STATUS_PRECONDITION_FAILED", "STATUS_URI_TOO_LONG", "STATUS_416_WITHOUT_RANGE", "STATUS_417_WITHOUT_EXPECT",
        "STATUS_417_WITH_100_CONTINUE", "STATUS_EXPECTATION_FAILED", "STATUS_NONSTANDARD", "STATUS_CODE_NON_NUMERIC", "STATUS_PHRASE_ENCODING"}

\* the code as a number, written canonically; "none" when it is not a number
CodeOfTop(top) == LET r == IntRec(top[2]) IN IF ~r.ok THEN "none" ELSE (IF r.neg THEN "-" ELSE "") \o r.d
HasReq(m) == HasF(m, "related")
ReqHas(m, names) == \E n \in names : Present(Text(m.related.headers), n)
RespHas(m, name) == Present(Text(m.headers), name)
MethodOf(m) == m.related.top[1]
Expects(m) == \E k \in 1..Len(m.related.headers) :
                Lower(m.related.headers[k][1]) = "expect"
                /\ \E j \in 1..Len(Split(m.related.headers[k][2], ",")) : Lower(Strip(Split(m.related.headers[k][2], ",")[j])) = "100-continue"
Allows(m, x) == \E k \in 1..Len(Members(Text(m.headers), "allow")) : Members(Text(m.headers), "allow")[k][2] = x
Prohibited(m) == SelectSeq(Metadata, LAMBDA n : RespHas(m, n))

\* the parts of a multipart/byteranges message have their ranges in them
Multipart(m) == RespHas(m, "content-type") /\ Lower(Strip(Before(OneOf(Text(m.headers), "content-type"), ";"))) = "multipart/byteranges"

CodeNotes(c, m) ==
  CASE c = "100" -> One(HasReq(m) /\ ~Expects(m), NoteKey("UNEXPECTED_CONTINUE", "status"))
    [] c = "101" -> One(HasReq(m) /\ ~ReqHas(m, {"upgrade"}), NoteKey("UPGRADE_NOT_REQUESTED", "status"))
    [] c = "201" -> One(HasReq(m) /\ MethodOf(m) \in SafeMethods, NoteKey("CREATED_SAFE_METHOD", "status"))
                    \o One(~RespHas(m, "location"), NoteKey("CREATED_WITHOUT_LOCATION", "field-location"))
    [] c = "206" -> One(HasReq(m) /\ ~ReqHas(m, {"range"}), NoteKey("PARTIAL_NOT_REQUESTED", ""))
                    \o One(~RespHas(m, "content-range") /\ ~Multipart(m), NoteKey("PARTIAL_WITHOUT_RANGE", "status"))
    [] c \in {"301", "302", "303", "307", "308"} -> One(~RespHas(m, "location"), NoteKey("REDIRECT_WITHOUT_LOCATION", "field-location"))
    [] c = "304" -> One(~RespHas(m, "date"), NoteKey("NO_DATE_304", "status"))
                    \o One(Prohibited(m) # <<>>, NoteKey("HEADER_SHOULD_NOT_BE_IN_304", "field-content-type"))
    [] c = "405" -> <<IF HasReq(m) /\ MethodOf(m) # "" /\ Allows(m, MethodOf(m)) THEN NoteKey("STATUS_405_METHOD_IN_ALLOW", "field-allow")
                      ELSE NoteKey("STATUS_METHOD_NOT_ALLOWED", "")>>
    [] c = "406" -> <<NoteKey(IF HasReq(m) /\ ~ReqHas(m, Negotiation) THEN "STATUS_406_WITHOUT_NEGOTIATION" ELSE "STATUS_NOT_ACCEPTABLE", "")>>
    [] c = "412" -> <<NoteKey(IF HasReq(m) /\ ~ReqHas(m, Preconditions) THEN "STATUS_412_WITHOUT_PRECONDITION" ELSE "STATUS_PRECONDITION_FAILED", "")>>
    [] c = "414" -> <<NoteKey("STATUS_URI_TOO_LONG", "uri")>>
    [] c = "416" -> One(HasReq(m) /\ ~ReqHas(m, {"range"}), NoteKey("STATUS_416_WITHOUT_RANGE", ""))
    [] c = "417" -> <<NoteKey(IF ~HasReq(m) THEN "STATUS_EXPECTATION_FAILED" ELSE IF ~ReqHas(m, {"expect"}) THEN "STATUS_417_WITHOUT_EXPECT"
                              ELSE IF Expects(m) THEN "STATUS_417_WITH_100_CONTINUE" ELSE "STATUS_EXPECTATION_FAILED", "")>>
    [] c \in DOMAIN Explained -> <<NoteKey(Explained[c], "")>>
    [] OTHER -> One(c \notin Registered, NoteKey("STATUS_NONSTANDARD", "status"))
TopNotes(top) == One(CodeOfTop(top) = "none", NoteKey("STATUS_CODE_NON_NUMERIC", "status"))
                 \o One(Len(top) > 2 /\ ~AllIn(top[3], Ascii), NoteKey("STATUS_PHRASE_ENCODING", "status"))
StatusNotes(m) == CodeNotes(CodeOfTop(m.top), m) \o TopNotes(m.top)

\* what the notes say: the code, the method, the length of the URI, the fields
Saying(m) == [status |-> IF CodeOfTop(m.top) = "none" THEN "i0" ELSE "i" \o CodeOfTop(m.top),
              method |-> "s" \o (IF HasReq(m) THEN MethodOf(m) ELSE "request"),
              uri_len |-> "s" \o (IF HasReq(m) /\ Before(m.related.top[2], "#") # ""
                                  THEN "(" \o ToString(Len(Before(m.related.top[2], "#"))) \o " characters)" ELSE ""),
              headers |-> "s" \o Join([k \in 1..Len(Prohibited(m)) |-> "- `" \o Prohibited(m)[k] \o "`"], "\n")]
=============================================================================
