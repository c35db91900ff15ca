SPECIFICATION Spec
CONSTANTS Depth = 6
 Texts = {"a"}
 HashOf <- Collide
 PrintHist = TRUE
INVARIANTS Injective Emit
CHECK_DEADLOCK FALSE
