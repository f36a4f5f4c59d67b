SPECIFICATION Spec
INVARIANTS Declared NullExists Cases
CHECK_DEADLOCK FALSE
