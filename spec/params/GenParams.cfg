SPECIFICATION MSpec
CONSTANTS
  Names = {"a", "b", "c"}
  Vals = {"17", "text", "2.5"}
  MaxOps = 25
  GenDepth = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
