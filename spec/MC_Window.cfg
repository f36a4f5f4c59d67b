SPECIFICATION Spec
INVARIANTS Showable Cases
CHECK_DEADLOCK FALSE
