SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Vals = {0, 1, 2}
  Kinds = {"two", "three", "four", "maybe", "result"}
  Types = {"int", "ptr", "any"}
  Ways = {}
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
