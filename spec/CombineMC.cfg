SPECIFICATION Spec
CONSTANTS
  Mode = "calls"
  MaxLen = 3
INVARIANTS Emit RoundTrip
CHECK_DEADLOCK FALSE
