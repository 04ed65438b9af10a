SPECIFICATION Spec
INVARIANT Sound
INVARIANT Some
CHECK_DEADLOCK FALSE
