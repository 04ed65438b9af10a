SPECIFICATION Spec
CONSTANTS OBJS = {1, 2, 3}
 SLOTS = {1, 2, 3}
 UNIQUES = {1, 2}
INVARIANTS ExactlyOnce Counts OneUnique
CHECK_DEADLOCK FALSE
