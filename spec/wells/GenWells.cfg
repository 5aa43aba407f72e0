SPECIFICATION GenSpec
CONSTANTS
  Handles = {1, 2}
  NP = 2
  MaxW = 9
  MaxC = 9
  MaxD = 100
  GenDepth = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
