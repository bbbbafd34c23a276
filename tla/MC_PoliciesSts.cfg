SPECIFICATION Spec
CONSTANTS
 Part = "sts"
 StsPieces <- StsPiecesInSts
 MaxSts = 3
 Bases = {"http://e.com/", "HTTP://e.com", "https://e.com/", "", "httpx:a"}
 StatusCodes = {"200", "301", "302"}
 CspPieces = {"a"}
 MaxCsp = 2
 Endpoints = {""}
 TokenValues = {"a"}
 TokenLast = {"origin", "", "nosniff", "UNSAFE-URL"}
 CoValues = {"a"}
INVARIANTS StsSound StsOneVerdict StsPreload StsExtends StsOrder Emit
CHECK_DEADLOCK FALSE
