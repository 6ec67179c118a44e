SPECIFICATION Spec
CONSTANTS
  Deep = 4
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
