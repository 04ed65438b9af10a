SPECIFICATION Spec
CONSTANTS MAXLEN = 5
INVARIANTS Sane Limited Headers RoundTrip
CHECK_DEADLOCK FALSE
