SPECIFICATION MSpec
CONSTANTS
  MaxN = 3
  Steps = {2, 4}
  Deps = {0, 4}
INVARIANT Built
CHECK_DEADLOCK FALSE
