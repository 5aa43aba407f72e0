SPECIFICATION MSpec
CONSTANTS
  NI = 2
  NK = 2
INVARIANT Correct
CHECK_DEADLOCK FALSE
