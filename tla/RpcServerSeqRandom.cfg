SPECIFICATION Spec
CONSTANTS
 MaxRegs = 4
 MaxRecs = 10
 Exhaustive = FALSE
INVARIANTS RepliesDecode RunsOnlyOwn MismatchRange
CHECK_DEADLOCK FALSE
