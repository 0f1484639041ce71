SPECIFICATION Spec
INVARIANT WithinInput
PROPERTY Monotone
CONSTANTS Len0 = 3
  Modes = {"r", "w", "h"}
CHECK_DEADLOCK FALSE
