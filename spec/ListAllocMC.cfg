SPECIFICATION Spec
CONSTANTS SIZES = {1, 9, 20, 40}
 ALIGNS = {1, 16}
 REGION = 96
 MAXU = 3
 MAXR = 2
INVARIANTS AlwaysGood Reusable
CHECK_DEADLOCK FALSE
