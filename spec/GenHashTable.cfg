SPECIFICATION MSpec
CONSTANTS Depth = 4
          Gen = TRUE
          Keys = {"1", "9"}
VIEW GView
INVARIANT Emit
CHECK_DEADLOCK FALSE
