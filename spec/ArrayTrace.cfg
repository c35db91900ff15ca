SPECIFICATION TSpec
INVARIANT CapacityHolds
PROPERTIES FailureIsAtomic
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
