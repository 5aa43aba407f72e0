SPECIFICATION MSpec
CONSTANTS
  Scale = 1
  MaxRec = 4
  Ws = {"A", "B"}
  Gs = {"G", "H"}
  Gen = FALSE
INVARIANTS OnePerName EveryPerforationIsACell Depths ControlsMatch OneTree LaterRules FlagsFlip
CHECK_DEADLOCK FALSE
