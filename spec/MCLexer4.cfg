SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Mode = "texts"
INVARIANT Partition Nonempty Placed Alone
CHECK_DEADLOCK FALSE
