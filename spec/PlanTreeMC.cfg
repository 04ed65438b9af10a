SPECIFICATION Spec
CONSTANT N = 2
INVARIANT Right
INVARIANT Accepted
CHECK_DEADLOCK FALSE
