SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANT InBounds Prefix Done Identity NoBracketsIdentity
PROPERTY Advances
CHECK_DEADLOCK FALSE
