SPECIFICATION Spec
CONSTANTS
 Plans <- MCPlans
 FreeAt = "written"
 Spawn = TRUE
 Blocked <- NoCalls
INVARIANTS ArgsStable Exclusive PoolFree OwnReplies OncePerCall
PROPERTIES Refines NotDelayed
CHECK_DEADLOCK FALSE
