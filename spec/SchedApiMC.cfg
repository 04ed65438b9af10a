CONSTANTS Txn = {1, 2}
 Cmd = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS OneAtATime Serial TimesDiffer
CHECK_DEADLOCK FALSE
