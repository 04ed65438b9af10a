CONSTANT Thread = {t1, t2, t3}
SPECIFICATION Spec
INVARIANTS TypeOK MutualExclusion
PROPERTIES AtomicUpgrade NoOvertaking
CHECK_DEADLOCK FALSE
