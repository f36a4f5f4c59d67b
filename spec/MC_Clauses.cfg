SPECIFICATION Spec
INVARIANTS Automaton Cases
CHECK_DEADLOCK FALSE
