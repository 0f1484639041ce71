SPECIFICATION Spec
CONSTANTS
 Random = FALSE
 MaxLen = 0
CHECK_DEADLOCK FALSE
