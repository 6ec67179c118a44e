\* exhaustive: all registries with at most 3 receivers per id over 3 ids
SPECIFICATION Spec
CONSTANTS
  Receivers = {"a", "d"}
  Ids = {0, 1, 2}
  MaxOps = 1000000
VIEW NoHist
CONSTRAINT Bounded
INVARIANTS TypeOK DeliveredOften DeliveredOrder
CHECK_DEADLOCK FALSE
