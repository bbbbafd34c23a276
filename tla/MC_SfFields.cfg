SPECIFICATION Spec
CONSTANTS
 Pieces <- PiecesIn
 MaxPieces = 3
 Kinds = {"cache-groups", "deprecation", "permissions-policy"}
 Values <- ValuesIn
 Features = {"camera", "x"}
 ParamNames = {"hit", "fwd", "ttl", "key", "detail", "error", "next-hop", "next-protocol", "received-status", "details", "q"}
 Statuses = {"cache-status", "proxy-status"}
 Methods = {"GET", "POST", "get", "TRACE"}
 Uris = {"http://e.com/", "HTTP://e.com/", "https://e.com/", "/"}
 VaryOf = {"dpr", "DPR, Width", "accept", "*"}
 CcOf = {"max-age=1", "no-store"}
 Hints <- HintsIn
INVARIANTS RoundTrip AllOrNothing KeysOnce LineJoin OneEach UnderParent Emit
CHECK_DEADLOCK FALSE
