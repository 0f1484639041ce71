SPECIFICATION Spec
CONSTANTS
 Random = FALSE
 MaxSteps = 2
INVARIANT CallsAreInvocations
INVARIANT ReturnsOnce
INVARIANT ResultDecodes
CHECK_DEADLOCK FALSE
