SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT InBounds Prefix Done Identity NoBracketsIdentity
PROPERTY Advances
CHECK_DEADLOCK FALSE
