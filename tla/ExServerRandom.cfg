SPECIFICATION Spec
CONSTANTS
 Random = TRUE
INVARIANTS Registered Tidy NoResult
CHECK_DEADLOCK FALSE
