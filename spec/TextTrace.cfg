SPECIFICATION TSpec
INVARIANT Fits
PROPERTY FailureIsAtomic
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
