SPECIFICATION MSpec
CONSTANTS
  NC = 3
  NF = 3
  MaxB = 2
INVARIANTS Complete Exactly Between
CHECK_DEADLOCK FALSE
