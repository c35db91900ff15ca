SPECIFICATION Spec
INVARIANTS Sees Relation Kinds Counted
CHECK_DEADLOCK FALSE
