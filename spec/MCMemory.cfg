SPECIFICATION MSpec
CONSTANTS N = 4
          Depth = 0
          Gen = FALSE
INVARIANT Bytewise
INVARIANT Searching
INVARIANT Arithmetic
PROPERTY SwapTwice
CHECK_DEADLOCK FALSE
