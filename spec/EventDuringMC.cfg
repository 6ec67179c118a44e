SPECIFICATION Spec
CONSTANTS
  Receivers = {"a", "d"}
  Ids = {0, 1, 2}
  MaxRegs = 3
  MaxActs = 1
  MaxAt = 2
INVARIANTS Emit Back
CHECK_DEADLOCK FALSE
