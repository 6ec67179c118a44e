SPECIFICATION Spec
CONSTANTS
  MaxRegs = 2
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
