SPECIFICATION Spec
INVARIANTS ReadBack Duals Cases
CHECK_DEADLOCK FALSE
