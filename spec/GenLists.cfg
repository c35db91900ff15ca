SPECIFICATION MSpec
CONSTANTS Depth = 3
          Most = 30
          Gen = TRUE
VIEW GView
INVARIANT Emit
CHECK_DEADLOCK FALSE
