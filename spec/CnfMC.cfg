SPECIFICATION Spec
INVARIANT Preserves
CHECK_DEADLOCK FALSE
