SPECIFICATION Spec
CONSTANTS
    N = 3
    MAXSIZE = 3
INVARIANT Sound
PROPERTIES Grow Exact
CHECK_DEADLOCK FALSE
