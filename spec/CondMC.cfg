SPECIFICATION Spec
INVARIANT Sound
INVARIANT Kept
CHECK_DEADLOCK FALSE
