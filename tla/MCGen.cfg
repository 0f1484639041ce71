SPECIFICATION Spec
CONSTANTS
 Early = FALSE
 Straight = FALSE
INVARIANTS AllOrNothing OutputsLast
PROPERTY Ends
CHECK_DEADLOCK FALSE
