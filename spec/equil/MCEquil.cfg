SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Gs = {0, 2}
INVARIANTS Closed Deeper Sorted Settled FaceBetween
CHECK_DEADLOCK FALSE
