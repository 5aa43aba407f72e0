SPECIFICATION Spec
CONSTANTS
  MaxTok = 4
  Width = 4
INVARIANT SameResult
CHECK_DEADLOCK FALSE
