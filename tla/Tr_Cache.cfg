SPECIFICATION TSpec
INVARIANTS CheckDone
POSTCONDITION Post
CHECK_DEADLOCK FALSE
