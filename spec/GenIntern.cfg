SPECIFICATION Spec
CONSTANTS Depth = 5
 ArenaSize = 8
 Limit = 9
 PrintHist = TRUE
INVARIANTS Injective Emit
CHECK_DEADLOCK FALSE
