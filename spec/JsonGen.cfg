SPECIFICATION Spec
VIEW View
INVARIANTS Emitted BaseOk
CHECK_DEADLOCK FALSE
