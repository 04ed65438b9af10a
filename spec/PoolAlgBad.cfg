CONSTANTS Thread = {1, 2, 3}
 Value = {0, 1}
 RecheckOnRefusal = FALSE
 UpgradeIsAtomic = TRUE
SPECIFICATION Spec
INVARIANTS Canonical SameObject Exclusive
CHECK_DEADLOCK FALSE
