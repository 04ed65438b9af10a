CONSTANTS Client = {1, 2, 3}
 PerTxn = 2
 Txns = 2
SPECIFICATION Spec
INVARIANTS Contiguous Once NoLoss
PROPERTY AllDone
CHECK_DEADLOCK FALSE
