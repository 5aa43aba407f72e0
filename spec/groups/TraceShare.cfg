CONSTANT Scale = 27720
CONSTANT Focus = "share"
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
