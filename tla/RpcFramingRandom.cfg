SPECIFICATION Spec
CONSTANTS
 Random = TRUE
 TwoCuts = 56
INVARIANTS ActsOnRecords ActsOnAll InOrder
CHECK_DEADLOCK FALSE
