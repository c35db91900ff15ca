SPECIFICATION MSpec
CONSTANTS N = 4
          Depth = 2
          Gen = TRUE
VIEW GView
INVARIANT Emit
CHECK_DEADLOCK FALSE
