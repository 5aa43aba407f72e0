SPECIFICATION MSpec
CONSTANTS
  Depths = {0, 1, 2, 3}
  NCells = 1
INVARIANTS Complete Covered Symmetric Convex
CHECK_DEADLOCK FALSE
