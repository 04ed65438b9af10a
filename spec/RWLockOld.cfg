CONSTANTS Thread = {t1, t2, t3, t4}
 WakeAllForUpgrade = FALSE
SPECIFICATION Spec
INVARIANTS MutualExclusion Counters AtomicUpgrade NoDeadlock NoSleeperOnFreeLock UpgraderServed
CHECK_DEADLOCK FALSE
