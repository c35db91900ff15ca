SPECIFICATION Spec
INVARIANTS Complete Entries NameKept FwdIffNoBody Others Needs
CHECK_DEADLOCK FALSE
