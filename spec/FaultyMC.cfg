SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxLen = 4
INVARIANTS Conserved Bounded ErrorsStay Emit
CHECK_DEADLOCK FALSE
