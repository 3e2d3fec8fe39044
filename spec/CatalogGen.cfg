SPECIFICATION Spec
VIEW Seen
INVARIANTS Unique Laws Local
CHECK_DEADLOCK FALSE
