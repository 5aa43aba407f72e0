SPECIFICATION GenSpec
CONSTANTS
  Scale = 1
  Sys = {1, 2, 3}
  MaxOps = 8
  RateSet = {0, 4, 8, 12}
  BhpSet = {1, 2}
  Gen = TRUE
  GenDepth = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
