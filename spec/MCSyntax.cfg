SPECIFICATION Spec
INVARIANT Supported
CHECK_DEADLOCK FALSE
