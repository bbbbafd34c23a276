SPECIFICATION Spec
CONSTANTS
 Years = {1600, 1899, 1968, 1999, 2023, 2067, 2099, 9996}
 Length = 430
INVARIANTS ReadsImf ReadsAsc Reads850 EpochDay Emit
CHECK_DEADLOCK FALSE
