SPECIFICATION Spec
INVARIANTS Declared Cases
CHECK_DEADLOCK FALSE
