SPECIFICATION Spec
CONSTANTS
 Plans <- MCPlans
 FreeAt = "written"
 Spawn = TRUE
 Blocked <- First
INVARIANTS ArgsStable Exclusive PoolFree OwnReplies OncePerCall
PROPERTIES Refines NotDelayed
CHECK_DEADLOCK FALSE
