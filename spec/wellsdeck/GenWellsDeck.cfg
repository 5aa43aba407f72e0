SPECIFICATION MSpec
CONSTANTS
  Scale = 1
  MaxRec = 12
  Ws = {"A", "B"}
  Gs = {"G", "H"}
  Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
