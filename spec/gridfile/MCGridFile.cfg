SPECIFICATION Spec
CONSTANTS
  Emitting = FALSE
INVARIANTS Right Faithful NoHalves Sized
CHECK_DEADLOCK FALSE
