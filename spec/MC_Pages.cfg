SPECIFICATION Spec
INVARIANTS Rightly Cases
CHECK_DEADLOCK FALSE
