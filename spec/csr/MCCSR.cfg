SPECIFICATION MSpec
CONSTANTS
  M = 3
  Cols = {0, 1, 2}
  MaxNnz = 4
INVARIANTS Layout Protocol
CHECK_DEADLOCK FALSE
