SPECIFICATION Spec
CONSTANTS Regs = 1
          Files = 2
INVARIANT Seen Known
CHECK_DEADLOCK FALSE
