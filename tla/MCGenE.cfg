SPECIFICATION Spec
CONSTANTS
 Early = TRUE
 Straight = FALSE
INVARIANTS AllOrNothing
PROPERTY Ends
CHECK_DEADLOCK FALSE
