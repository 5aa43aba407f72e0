CONSTANT Scale = 27720
CONSTANT Focus = "check"
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
