SPECIFICATION Spec
INVARIANTS Careful Cases
CHECK_DEADLOCK FALSE
