CONSTANT Thread = {0, 1, 2, 3}
SPECIFICATION TSpec
INVARIANTS MutualExclusion NoReject
CHECK_DEADLOCK FALSE
