SPECIFICATION MSpec
CONSTANTS
  MaxKey = 5
  MaxLen = 4
INVARIANT TableOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
