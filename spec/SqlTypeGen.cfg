SPECIFICATION Spec
INVARIANTS Laws Same Emitted
CHECK_DEADLOCK FALSE
