SPECIFICATION Spec
CONSTANTS KEYS = {k1, k2, k3}
 MAXV = 6
INVARIANTS Exact Occupied
CHECK_DEADLOCK FALSE
