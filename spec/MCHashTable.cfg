SPECIFICATION MSpec
CONSTANTS Depth = 0
          Gen = FALSE
          Keys = {"1", "9", "17"}
CONSTRAINT Bound
VIEW View
INVARIANT DeadIsEmpty
PROPERTY OneKeyAtATime
CHECK_DEADLOCK FALSE
