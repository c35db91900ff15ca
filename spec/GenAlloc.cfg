SPECIFICATION Spec
CONSTANTS Depth = 6
 Sizes = {3, 16}
 Aligns = {4, 16}
 Bases = {0, 4}
 Total = 64
 PrintHist = TRUE
INVARIANTS Disjoint Emit
CHECK_DEADLOCK FALSE
