SPECIFICATION Spec
CONSTANTS
  G = 2
  A = 40
CHECK_DEADLOCK FALSE
