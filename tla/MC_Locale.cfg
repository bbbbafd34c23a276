SPECIFICATION Spec
CONSTANTS
  Locs = {"A", "B"}
  MaxCtx = 3
  MaxOps = 5
  Shared = FALSE
  Forget = FALSE
INVARIANTS Matches Depths Emit
PROPERTIES Isolated Scoped Inherits
CHECK_DEADLOCK FALSE
