SPECIFICATION Spec
INVARIANTS Agrees Laws
CHECK_DEADLOCK FALSE
