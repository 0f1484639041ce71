SPECIFICATION Spec
INVARIANTS Agrees 
CHECK_DEADLOCK FALSE
