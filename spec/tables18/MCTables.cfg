SPECIFICATION MSpec
CONSTANTS
  Vals = {1, 2}
  MaxLen = 6
  Junk = 99
INVARIANTS Represents Room
CHECK_DEADLOCK FALSE
