SPECIFICATION Spec
CONSTANTS
 Alphabet = {"no-store", "no-cache", "private", "public", "max-age=60", "max-age=0", "Max-Age=5", "s-maxage=x", "max-stale=1", "must-revalidate", "immutable", "post-check=0", "pre-check=9", "no-store=1", "foo"}
 MaxMembers = 3
 Kinds = {"request", "response"}
INVARIANTS SplitFree OrderFree BadHasNoEffect Emit
CHECK_DEADLOCK FALSE
