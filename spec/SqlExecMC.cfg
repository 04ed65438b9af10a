SPECIFICATION Spec
CONSTANTS B = 2
 N = 3
 Vals <- MCVals
INVARIANTS Correct Sound
PROPERTY Ends
