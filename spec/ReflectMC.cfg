SPECIFICATION Spec
CONSTANTS
  Ptrs = 2
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
