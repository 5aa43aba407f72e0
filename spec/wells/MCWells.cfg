SPECIFICATION MSpec
CONSTANTS
  Handles = {1, 2}
  NP = 1
  MaxW = 2
  MaxC = 1
  MaxD = 5
  GenDepth = 0
INVARIANT WellFormed
PROPERTIES PMonotone POneAtATime
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
