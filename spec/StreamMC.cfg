SPECIFICATION Spec
CONSTANTS
  MaxStages = 2
  MaxLen = 2
  MaxNext = 4
  Wide = FALSE
INVARIANTS MeansWhatItSays PrefixOfMeaning SourceBound Emit
CHECK_DEADLOCK FALSE
