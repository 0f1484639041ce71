SPECIFICATION Spec
CONSTANTS
 Plans <- MCPlans
 FreeAt = "exit"
 Spawn = TRUE
 Blocked <- NoCalls
INVARIANTS ArgsStable OwnReplies
PROPERTIES Refines NotDelayed
CHECK_DEADLOCK FALSE
