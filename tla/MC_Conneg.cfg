SPECIFICATION Spec
CONSTANTS
 Weights <- WeightsIn
 Ranges = {"*/*", "text/*", "text/html", "*/x", "en-US", "gzip", "TEXT/~x", "a", "", "x/yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"}
 Prefs = {"gzip", "GZIP;q=0", "*", "*;q=0", "br;q=0.5 ", "identity", ""}
 Codings = {"gzip", "GZip", "br", "identity", "x-gzip", "gzip, br", "*"}
 Names1 = {"*", "User-Agent", "host", "Negotiate", "a"}
 MaxNames = 4
INVARIANTS WeightOk VarySet Wanted OneDup Emit
CHECK_DEADLOCK FALSE
