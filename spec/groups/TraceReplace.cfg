CONSTANT Scale = 27720
CONSTANT Focus = "replace"
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
