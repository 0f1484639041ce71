SPECIFICATION Spec
CONSTANTS
 Random = FALSE
INVARIANTS Registered Tidy NoResult
CHECK_DEADLOCK FALSE
