SPECIFICATION MSpec
CONSTANTS
  MaxRows = 3
  MaxLen = 2
  MaxN = 3
INVARIANTS Represents VRepresents Distinct
CHECK_DEADLOCK FALSE
