SPECIFICATION Spec
INVARIANTS Commutes Associates Idempotent Widens Least Closed
CHECK_DEADLOCK FALSE
