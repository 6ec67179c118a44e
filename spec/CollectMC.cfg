SPECIFICATION Spec
CONSTANTS
  Mode = "slice"
  MaxLen = 3
  MaxOps = 3
  Vals = {0, 1, 2}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
