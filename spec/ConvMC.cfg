SPECIFICATION Spec
CONSTANTS
  Mode = "values"
  TextLen = 4
  Apis = {"to", "any", "direct"}
  Powers = {7, 8, 15, 16, 24, 31, 32, 53, 63, 64}
INVARIANTS Emit Laws
CHECK_DEADLOCK FALSE
