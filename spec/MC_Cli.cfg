SPECIFICATION Spec
INVARIANTS Said Cases
CHECK_DEADLOCK FALSE
