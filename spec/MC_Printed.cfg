SPECIFICATION Spec
INVARIANTS Told Cases
CHECK_DEADLOCK FALSE
