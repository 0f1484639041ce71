SPECIFICATION Spec
CONSTANTS
 Plans <- MCPlans
 FreeAt = "written"
 Spawn = FALSE
 Blocked <- First
INVARIANTS ArgsStable Exclusive PoolFree OwnReplies OncePerCall
PROPERTIES Refines NotDelayed
CHECK_DEADLOCK FALSE
