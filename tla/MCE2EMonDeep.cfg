SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2, 3}
  Raw = {3}
  Multi = {2}
  Depth = 8
  Ks = {1}
  Args = {1}
  Results = {0, 1}
INVARIANTS Same One
CHECK_DEADLOCK FALSE
