SPECIFICATION Spec
CONSTANTS
 Part = "token"
 StsPieces = {"max-age=31536000"}
 MaxSts = 3
 Bases = {""}
 StatusCodes = {"200"}
 CspPieces = {"a"}
 MaxCsp = 2
 Endpoints <- EndpointsInToken
 TokenValues = {"no-referrer", "UNSAFE-URL", "origin", "strict-origin-when-cross-origin", "nosniff", "NoSniff", "no sniff", "DENY", "deny", "SameOrigin", "sameorigin x", "same-origin", "Same-Origin", "cross-origin", "true", "True", "", "DENY,DENY"}
 TokenLast = {"origin", "", "nosniff", "UNSAFE-URL"}
 CoValues <- CoValuesInToken
INVARIANTS OneVerdict LastKnown DeclareAll Emit
CHECK_DEADLOCK FALSE
