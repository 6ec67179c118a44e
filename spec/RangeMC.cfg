SPECIFICATION Spec
CONSTANTS
  MaxSets = 1
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
