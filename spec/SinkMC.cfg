SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxVals = 2
  MaxScript = 1
  MaxRoom = 3
INVARIANTS Kept Honest Emit
CHECK_DEADLOCK FALSE
