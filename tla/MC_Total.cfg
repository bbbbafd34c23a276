SPECIFICATION Spec
CONSTANTS
 Sorts = {"plain", "odd"}
 MaxChunks = 2
INVARIANTS Alive CanEnd EndsOnce Lives Ordered Emit
CHECK_DEADLOCK FALSE
