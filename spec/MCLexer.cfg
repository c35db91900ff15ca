SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Mode = "texts"
INVARIANT Partition Nonempty Placed Alone
CHECK_DEADLOCK FALSE
