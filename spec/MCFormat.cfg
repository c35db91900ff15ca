SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS WidthHolds BodyInside OnlyPadding RoundTrip
CHECK_DEADLOCK FALSE
