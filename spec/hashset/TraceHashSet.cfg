SPECIFICATION TSpec
INVARIANT TableOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
