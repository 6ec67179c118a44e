SPECIFICATION Spec
CONSTANTS
  ArrLen = 7
  ObjLen = 6
  NumLen = 5
  StrLen = 3
  Mode = "arr"
  Op = "parse"
INVARIANTS Agree Bounded Emit
CHECK_DEADLOCK FALSE
