SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Agrees Inverse
CHECK_DEADLOCK FALSE
