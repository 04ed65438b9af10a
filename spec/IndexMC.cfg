SPECIFICATION Spec
INVARIANTS InRange Answer
PROPERTY Terminates
CONSTANTS N = 8
K = 3
CHECK_DEADLOCK FALSE
