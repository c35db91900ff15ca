SPECIFICATION Spec
CONSTANTS
  N = 6
INVARIANT Agree
INVARIANT Completed
INVARIANT WrongStays
INVARIANT Finished
INVARIANT Cut
CHECK_DEADLOCK FALSE
