SPECIFICATION Spec
INVARIANTS Faithful Cases
CHECK_DEADLOCK FALSE
