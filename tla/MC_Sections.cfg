SPECIFICATION Spec
CONSTANTS
 MaxLines = 2
 Kinds = {"request", "response"}
 Lines = {"age1", "age2", "allow1", "allow2", "conn1", "conn2", "vary", "host", "cookie", "setc", "pub", "bad", "unk", "pow", "ch", "ch2", "lat", "latn", "alias", "under"}
INVARIANTS Local CombineOk Placed Emit
CHECK_DEADLOCK FALSE
