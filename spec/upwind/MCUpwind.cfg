SPECIFICATION MSpec
INVARIANTS Defined Oriented Plain Conserved Balanced Rest Progress
CHECK_DEADLOCK FALSE
