SPECIFICATION Spec
CONSTANTS
  N = 8
  MaxIter = 4
INVARIANTS Kept Right Fair Patient
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
