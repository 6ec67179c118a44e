SPECIFICATION Spec
CONSTANTS
  Mode = "pairs"
  TextLen = 5
  Scales = {0, 1, 9, 18}
  Regs = {1, 2, 3, 4}
INVARIANTS Emit Laws
CHECK_DEADLOCK FALSE
