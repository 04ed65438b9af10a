SPECIFICATION Spec
CONSTANT MAX = 6
INVARIANT Represents
CHECK_DEADLOCK FALSE
