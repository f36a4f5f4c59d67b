SPECIFICATION Spec
CONSTANT Careless = FALSE
INVARIANTS Explained NoLoss Cases
CHECK_DEADLOCK FALSE
VIEW Without
