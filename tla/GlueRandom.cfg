SPECIFICATION Spec
CONSTANTS
 Random = TRUE
 MaxSteps = 9
INVARIANT CallsAreInvocations
INVARIANT ReturnsOnce
INVARIANT ResultDecodes
CHECK_DEADLOCK FALSE
