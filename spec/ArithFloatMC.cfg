SPECIFICATION Spec
CONSTANTS
  Types = {"float32", "float64", "bigfloat"}
  Precs = {24, 70}
INVARIANTS Emit OneQuotient
CHECK_DEADLOCK FALSE
