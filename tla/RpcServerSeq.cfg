SPECIFICATION Spec
CONSTANTS
 MaxRegs = 5
 MaxRecs = 1
 Exhaustive = TRUE
INVARIANTS RepliesDecode RunsOnlyOwn MismatchRange
CHECK_DEADLOCK FALSE
