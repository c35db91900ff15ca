SPECIFICATION MSpec
CONSTANTS Depth = 4
          MaxLen = 6
          Gen = TRUE
VIEW GView
INVARIANT Emit
CHECK_DEADLOCK FALSE
