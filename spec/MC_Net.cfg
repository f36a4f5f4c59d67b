SPECIFICATION Spec
INVARIANTS Intervals Cases
CHECK_DEADLOCK FALSE
