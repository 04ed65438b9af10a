SPECIFICATION Spec
INVARIANTS Consumed Positional Commutes
CHECK_DEADLOCK FALSE
