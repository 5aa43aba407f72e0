SPECIFICATION Spec
CONSTANTS
  Emitting = TRUE
CHECK_DEADLOCK FALSE
