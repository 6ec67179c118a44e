\* generation: all behaviours of a given length
SPECIFICATION Spec
CONSTANTS
  Receivers = {"a", "d"}
  Ids = {0, 1, 2}
  MaxOps = 5
INVARIANTS Emit
CHECK_DEADLOCK FALSE
