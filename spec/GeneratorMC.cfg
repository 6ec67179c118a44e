SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Names = {"x", "d"}
  Locks = 1
  Starts = {"empty", "other", "base", "old", "deep", "file"}
INVARIANTS Emit Inv
PROPERTY Keeps
CHECK_DEADLOCK FALSE
