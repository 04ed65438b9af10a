SPECIFICATION Spec
INVARIANTS AlwaysSound RefusedIsUnchanged
CONSTANTS DBs = {"d0"}
Tabs = {"t0", "t1"}
Idxs = {"i0"}
MAXSTEPS = 7
MAXROWS = 1
CHECK_DEADLOCK FALSE
