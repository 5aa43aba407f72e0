SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Mus <- MusV
  Rs <- RsV
INVARIANTS Shares Produced Fill Balance WellsAdd Rock
PROPERTIES Grows
CHECK_DEADLOCK FALSE
