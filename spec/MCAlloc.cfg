SPECIFICATION Spec
CONSTANTS Depth = 7
 Sizes = {1, 5, 16}
 Aligns = {1, 4, 16}
 Bases = {0, 4}
 Total = 64
 PrintHist = FALSE
INVARIANTS Disjoint AllAligned NoneLost Room LastAligned
PROPERTY Undisturbed
CHECK_DEADLOCK FALSE
