SPECIFICATION Spec
CONSTANTS Depth = 8
 Texts = {"a", "b", "c", "d"}
 HashOf <- Collide
 PrintHist = FALSE
INVARIANTS Injective Stored HasBase ActiveUp Works
CHECK_DEADLOCK FALSE
