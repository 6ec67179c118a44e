SPECIFICATION Spec
CONSTANTS
  Types = {"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint"}
INVARIANTS Emit Agree
CHECK_DEADLOCK FALSE
