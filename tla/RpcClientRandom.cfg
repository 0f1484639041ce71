SPECIFICATION Spec
CONSTANTS
 Random = TRUE
 MaxCalls = 10
INVARIANT OnlyOwn
CHECK_DEADLOCK FALSE
