SPECIFICATION Spec
CONSTANTS
  Box = 4
  MaxCells = 3
  Emitting = TRUE
CHECK_DEADLOCK FALSE
