SPECIFICATION Spec
CONSTANTS
  Nodes = 3
  MaxCells = 2
  MaxFaces = 2
INVARIANTS Written Unique Damaged
CHECK_DEADLOCK FALSE
