SPECIFICATION Spec
INVARIANTS Makes Cases
CHECK_DEADLOCK FALSE
