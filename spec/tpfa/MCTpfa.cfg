SPECIFICATION MSpec
CONSTANTS
  MaxFaces = 2
  MaxForces = 2
INVARIANTS Means Conserves Shifts Symmetric
CHECK_DEADLOCK FALSE
