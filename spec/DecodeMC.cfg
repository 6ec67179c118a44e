SPECIFICATION Spec
CONSTANTS
  RuneLen = 4
  LineLen = 5
INVARIANTS RoundTrip Faithful Emit
CHECK_DEADLOCK FALSE
