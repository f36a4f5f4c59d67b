SPECIFICATION Spec
INVARIANTS Counts Cases
CHECK_DEADLOCK FALSE
