SPECIFICATION Spec
INVARIANTS Order Cases
CHECK_DEADLOCK FALSE
