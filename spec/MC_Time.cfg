SPECIFICATION Spec
INVARIANTS Agree SameTime Cases OtherCases
CHECK_DEADLOCK FALSE
