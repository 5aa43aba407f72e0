SPECIFICATION MSpec
CONSTANTS
  Lens = {1, 3}
  MaxSteps = 3
  MaxOps = 5
INVARIANTS Clock EndsAtTotal
PROPERTY Monotone
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
