SPECIFICATION Spec
INVARIANTS Progress Blank Alone
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {48, 57, 120, 46, 101, 45, 34, 92, 10, 61, 60, 97}
  MaxLen = 4
