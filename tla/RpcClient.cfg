SPECIFICATION Spec
CONSTANTS
 Random = FALSE
 MaxCalls = 2
INVARIANT OnlyOwn
PROPERTY InStep
CHECK_DEADLOCK FALSE
