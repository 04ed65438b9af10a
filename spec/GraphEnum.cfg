CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS Once Complete
CHECK_DEADLOCK FALSE
