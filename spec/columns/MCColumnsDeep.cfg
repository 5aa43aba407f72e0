SPECIFICATION MSpec
CONSTANTS
  NI = 1
  NK = 4
INVARIANT Correct
CHECK_DEADLOCK FALSE
