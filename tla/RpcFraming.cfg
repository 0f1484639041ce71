SPECIFICATION Spec
CONSTANTS
 Random = FALSE
 TwoCuts = 56
INVARIANTS ActsOnRecords ActsOnAll InOrder
CHECK_DEADLOCK FALSE
