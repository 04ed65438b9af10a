SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Safe
INVARIANT Top
INVARIANT Agrees
INVARIANT Tight
CHECK_DEADLOCK FALSE
