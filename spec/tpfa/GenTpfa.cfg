SPECIFICATION MSpec
CONSTANTS
  MaxFaces = 5
  MaxForces = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
