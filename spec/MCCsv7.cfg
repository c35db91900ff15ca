SPECIFICATION Spec
CONSTANTS MaxLen = 7
          MaxRows = 2
          MaxCols = 2
INVARIANT RoundTrip Rectangular Again Total
CHECK_DEADLOCK FALSE
