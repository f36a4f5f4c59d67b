SPECIFICATION Spec
INVARIANTS Reached Cases
CHECK_DEADLOCK FALSE
