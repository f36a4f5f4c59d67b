SPECIFICATION Spec
INVARIANTS Honest Cases
CHECK_DEADLOCK FALSE
