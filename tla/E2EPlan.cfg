SPECIFICATION Spec
CONSTANT Kinds = {"mixed", "crowd"}
INVARIANT Sound
CHECK_DEADLOCK FALSE
