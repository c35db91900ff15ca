SPECIFICATION TSpec


POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
