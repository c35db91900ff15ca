SPECIFICATION MSpec
CONSTANTS Depth = 0
          MaxLen = 3
          Gen = FALSE
CONSTRAINT Bound
VIEW View
INVARIANT CapacityHolds
PROPERTIES FailureIsAtomic Isolation StableStorage
CHECK_DEADLOCK FALSE
