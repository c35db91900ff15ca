SPECIFICATION MSpec
CONSTANTS Depth = 3
          MaxLen = 6
          Gen = TRUE
VIEW GView
INVARIANT Emit
CHECK_DEADLOCK FALSE
