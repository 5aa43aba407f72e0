SPECIFICATION MSpec
CONSTANTS
  Kws = {"WELOPEN", "GRUPTREE"}
  Ids = {1, 2}
  MaxItems = 5
  GenDepth = 0
INVARIANTS Inherits TimeIsSum
PROPERTY PFrozen
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
