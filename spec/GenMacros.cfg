SPECIFICATION Spec
CONSTANTS Regs = 2
          Files = 1
INVARIANT Seen Known Emit
CHECK_DEADLOCK FALSE
