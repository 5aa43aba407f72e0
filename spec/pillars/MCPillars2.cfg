SPECIFICATION MSpec
CONSTANTS
  Depths = {0, 1, 2}
  NCells = 2
INVARIANTS Complete Covered Symmetric Convex
CHECK_DEADLOCK FALSE
