SPECIFICATION Spec
CONSTANTS
  MaxNext = 6
  MaxItems = 4
  TextLen = 4
INVARIANTS Conserved Emit
CHECK_DEADLOCK FALSE
