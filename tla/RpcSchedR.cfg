SPECIFICATION SSpec
CONSTANTS
 Plans <- SPlans
 FreeAt = "written"
 Spawn = TRUE
 Blocked = {}
 MaxCalls = 6
 Everything = FALSE
INVARIANTS ArgsStable Exclusive PoolFree OwnReplies OncePerCall
CONSTRAINT Mine
CHECK_DEADLOCK FALSE
