SPECIFICATION Spec
CONSTANTS
 Conns = 3
 Steps = 12
 MaxWaiting = 9000
INVARIANTS Accounted OncePerXid
CHECK_DEADLOCK FALSE
