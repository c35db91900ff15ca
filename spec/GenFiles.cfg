SPECIFICATION MSpec
CONSTANTS Depth = 3
          Gen = TRUE
INVARIANT HandlesBounded
PROPERTIES Local NothingBeforeWrite ViewsDoNotGrow ReadOnlyKept NoLengthLoss
CHECK_DEADLOCK FALSE
