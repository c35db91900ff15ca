SPECIFICATION Spec
CONSTANTS
  N = 5
INVARIANT Agree
INVARIANT Completed
INVARIANT WrongStays
INVARIANT Finished
INVARIANT Cut
CHECK_DEADLOCK FALSE
