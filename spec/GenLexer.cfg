SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Mode = "pairs"
INVARIANT Partition Nonempty Placed Alone
CHECK_DEADLOCK FALSE
