SPECIFICATION Spec
CONSTANTS
 Early = FALSE
 Straight = TRUE
INVARIANTS AllOrNothing
PROPERTY Ends
CHECK_DEADLOCK FALSE
