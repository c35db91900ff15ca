SPECIFICATION Spec_
INVARIANTS TypeOK Inverse SpecToks OpsAre
CHECK_DEADLOCK FALSE
