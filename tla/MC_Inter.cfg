SPECIFICATION Spec
CONSTANTS
 Units2 = {1, 2, 3, 4}
 Units3 = {1, 2, 3}
 Leak = FALSE
INVARIANTS Independent Schedule NoWaiting Emit
CHECK_DEADLOCK FALSE
