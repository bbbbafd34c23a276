SPECIFICATION Spec
CONSTANTS
 Codings = {"dcb", "DCZ", "gzip", "dcb2"}
 Accepts = {"dcb", "dcz;q=0", "br", "*", "DCB ;q=0.5", "dcb;q=0.000, dcz"}
 Varies = {"Available-Dictionary", "accept, available-dictionary", "accept", "*"}
 Ccs = {"max-age=5", "no-store", "private"}
 Members1 = {"match", "match-dest", "id", "type", "ttl", "x"}
 Values <- ValuesIn
INVARIANTS Support Varied OrderFree Emit
CHECK_DEADLOCK FALSE
