SPECIFICATION MSpec
CONSTANTS
  Bs = {96, 104, 128}
  PMax = 18
  MMax = 16
INVARIANTS Limits Single Nodes
PROPERTIES Slopes Saturated
CHECK_DEADLOCK FALSE
