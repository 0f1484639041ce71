SPECIFICATION Spec
CONSTANTS
 Clients = {1, 2}
 Raw = {2}
 Multi = {}
 MaxCalls = 2
 Variant = "good"
 Args = {1}
INVARIANTS Accepted EndAccepted
PROPERTY CallsReturn
CHECK_DEADLOCK FALSE
