SPECIFICATION Spec
CONSTANTS MaxLen = 5
          MaxRows = 2
          MaxCols = 2
INVARIANT RoundTrip Rectangular Again Total
CHECK_DEADLOCK FALSE
