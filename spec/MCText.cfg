SPECIFICATION MSpec
CONSTANTS Depth = 0
          Gen = FALSE
          MaxLen = 3
CONSTRAINT Bound
VIEW View
INVARIANT Fits
PROPERTIES FailureIsAtomic Isolation
CHECK_DEADLOCK FALSE
