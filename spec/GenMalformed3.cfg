SPECIFICATION Spec
CONSTANTS
  G = 3
  A = 40
CHECK_DEADLOCK FALSE
