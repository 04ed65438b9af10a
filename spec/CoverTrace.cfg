SPECIFICATION Spec
INVARIANT NoReject
CHECK_DEADLOCK FALSE
