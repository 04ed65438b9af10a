SPECIFICATION Spec
CONSTANTS TXNS = 4
 KEYS = {1, 2}
 MAXROWS = 5
INVARIANTS Snapshots Single
CHECK_DEADLOCK FALSE
