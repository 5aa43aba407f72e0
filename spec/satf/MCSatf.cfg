SPECIFICATION MSpec
CONSTANTS
  Step = 4
INVARIANTS Bounded TwoPhase Resampling
PROPERTIES NoHelp
CHECK_DEADLOCK FALSE
