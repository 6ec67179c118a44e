SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Types = {"int8", "uint8", "int64", "bigint"}
INVARIANTS Emit Laws
CHECK_DEADLOCK FALSE
