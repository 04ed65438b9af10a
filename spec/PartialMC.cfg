SPECIFICATION Spec
CONSTANT N = 5
INVARIANT Complete
INVARIANT Disjoint
INVARIANT Covered
PROPERTY Ends
CHECK_DEADLOCK FALSE
