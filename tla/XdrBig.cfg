SPECIFICATION Spec
INVARIANTS Agrees ClaimsFail
CHECK_DEADLOCK FALSE
