SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS FailureChangesNothing OnlyOutputsChange SuccessWritesAll
CHECK_DEADLOCK FALSE
