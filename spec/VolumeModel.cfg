SPECIFICATION Spec
INVARIANTS Accepts Refuses Out
CHECK_DEADLOCK FALSE
