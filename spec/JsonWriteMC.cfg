SPECIFICATION Spec
CONSTANTS
  StrLen = 2
  Chars0 = 160
  MaxBudget = 8
INVARIANTS Faithful Emit
CHECK_DEADLOCK FALSE
