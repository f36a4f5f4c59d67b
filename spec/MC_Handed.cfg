SPECIFICATION Spec
INVARIANTS Delivered Judged Cases
CHECK_DEADLOCK FALSE
