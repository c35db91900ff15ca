SPECIFICATION TSpec
INVARIANT DeadIsEmpty
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
