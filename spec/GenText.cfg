SPECIFICATION MSpec
CONSTANTS Depth = 3
          Gen = TRUE
          MaxLen = 9
VIEW GView
INVARIANT Emit
CHECK_DEADLOCK FALSE
