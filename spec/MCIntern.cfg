SPECIFICATION Spec
CONSTANTS Depth = 7
 ArenaSize = 8
 Limit = 9
 PrintHist = FALSE
INVARIANTS Injective Stored Disjoint Total
CHECK_DEADLOCK FALSE
