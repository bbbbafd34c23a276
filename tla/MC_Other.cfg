SPECIFICATION Spec
CONSTANT Both2 = TRUE
INVARIANTS OneList Timing Seconds Spoken Cleared Alone Emit
CHECK_DEADLOCK FALSE
