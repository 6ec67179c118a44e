SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxScript = 2
  Many = 2
INVARIANTS NeverAfterError Emit
PROPERTIES EndIsPermanent
CHECK_DEADLOCK FALSE
