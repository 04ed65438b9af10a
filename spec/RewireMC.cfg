SPECIFICATION Spec
CONSTANTS SIZES = {1, 2, 3}
 MAX = 6
INVARIANTS Disjoint Exact
CHECK_DEADLOCK FALSE
