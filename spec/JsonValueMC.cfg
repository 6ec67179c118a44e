SPECIFICATION Spec
CONSTANTS
  Mode = "tree"
  PathLen = 5
  Depth = 1
INVARIANTS Compose TextsStand Emit
CHECK_DEADLOCK FALSE
