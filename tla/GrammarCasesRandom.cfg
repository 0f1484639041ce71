SPECIFICATION Spec
CONSTANTS
 Random = TRUE
 MaxLen = 60
INVARIANT DerivationsRead
CHECK_DEADLOCK FALSE
