SPECIFICATION Spec
CONSTANT Careless = TRUE
INVARIANTS Explained
CHECK_DEADLOCK FALSE
