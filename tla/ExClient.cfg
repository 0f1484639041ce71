SPECIFICATION Spec
CONSTANTS
 Random = FALSE
INVARIANTS InOrder Success6 Given
PROPERTY Stops
CHECK_DEADLOCK FALSE
