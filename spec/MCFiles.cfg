SPECIFICATION MSpec
CONSTANTS Depth = 5
          Gen = FALSE
VIEW View
INVARIANT HandlesBounded
PROPERTIES Local NothingBeforeWrite ViewsDoNotGrow ReadOnlyKept NoLengthLoss
CHECK_DEADLOCK FALSE
