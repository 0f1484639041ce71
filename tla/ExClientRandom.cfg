SPECIFICATION Spec
CONSTANTS
 Random = TRUE
INVARIANTS InOrder Success6 Given
CHECK_DEADLOCK FALSE
