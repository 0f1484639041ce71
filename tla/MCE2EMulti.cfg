SPECIFICATION Spec
CONSTANTS
 Clients = {1, 2}
 Raw = {}
 Multi = {2}
 MaxCalls = 2
 Variant = "good"
 Args = {1, 2}
INVARIANTS Accepted EndAccepted
CHECK_DEADLOCK FALSE
