SPECIFICATION Spec
INVARIANTS Declared Thresholds Cases
CHECK_DEADLOCK FALSE
