SPECIFICATION Spec
INVARIANT InPlace
CONSTANTS MAXROW = 40
SIZES = {1, 8, 16, 32}
CHECK_DEADLOCK FALSE
