SPECIFICATION MSpec
CONSTANTS Depth = 0
          Most = 10
          Gen = FALSE
CONSTRAINT Bound
VIEW View
INVARIANTS OneOwner Once Parents ParentIsList Flat
PROPERTIES Kept OneChanges
CHECK_DEADLOCK FALSE
