SPECIFICATION Spec
INVARIANT Report
POSTCONDITION AllSeen
CHECK_DEADLOCK FALSE
