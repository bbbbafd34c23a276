SPECIFICATION Spec
CONSTANTS
 Part = "csp"
 StsPieces = {"max-age=31536000"}
 MaxSts = 3
 Bases = {""}
 StatusCodes = {"200"}
 CspPieces <- CspPiecesInCsp
 MaxCsp = 2
 Endpoints <- EndpointsInCsp
 TokenValues = {"a"}
 TokenLast = {"origin", "", "nosniff", "UNSAFE-URL"}
 CoValues = {"a"}
INVARIANTS CspBoth CspFirstWins CspCase CspUnder Emit
CHECK_DEADLOCK FALSE
