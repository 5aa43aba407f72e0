SPECIFICATION Spec
CONSTANTS
  Box = 4
  MaxCells = 2
  Emitting = FALSE
INVARIANTS Symmetric Judged Local NoHoles Respects Isotropic NoCross Refused
CHECK_DEADLOCK FALSE
