SPECIFICATION Spec
CONSTANT N = 6
INVARIANT Holds
CHECK_DEADLOCK FALSE
