SPECIFICATION Spec
CONSTANTS
 Clients = {1, 2}
 Raw = {}
 Multi = {}
 MaxCalls = 2
 Variant = "last"
 Args = {1, 2}
INVARIANTS Accepted EndAccepted
CHECK_DEADLOCK FALSE
