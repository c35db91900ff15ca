SPECIFICATION Spec
CONSTANTS
 Types = {"int", "bool", "T", "T Ptr"}
 MaxParams = 3
INVARIANTS Arity OnlyMembers Truth Usable Total Spelled Told
CHECK_DEADLOCK FALSE
