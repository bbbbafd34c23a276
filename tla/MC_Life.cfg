SPECIFICATION Spec
CONSTANTS
 Files = {"empty", "text", "gz", "two", "parts", "named", "magic", "meth", "type", "nlen", "cut", "hcut"}
 MaxChunks = 2
 Configs = {"plain", "gone", "nocont", "head", "blind", "get", "put", "delete"}
INVARIANTS SplitFree Monotonic SafePrefix OneVerdict Emit
CHECK_DEADLOCK FALSE
