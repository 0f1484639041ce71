SPECIFICATION SSpec
CONSTANTS
 Plans <- SPlans
 FreeAt = "written"
 Spawn = TRUE
 Blocked = {}
 MaxCalls = 3
 Everything = TRUE
INVARIANTS ArgsStable Exclusive PoolFree OwnReplies OncePerCall
CONSTRAINT Mine
CHECK_DEADLOCK FALSE
