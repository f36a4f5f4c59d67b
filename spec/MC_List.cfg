SPECIFICATION Spec
INVARIANTS Union Cases
CHECK_DEADLOCK FALSE
