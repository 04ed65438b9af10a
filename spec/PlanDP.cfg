CONSTANTS N = 4
 Cards <- MCCards
SPECIFICATION Spec
INVARIANTS Sound Optimal
CHECK_DEADLOCK FALSE
