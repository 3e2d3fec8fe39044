SPECIFICATION Spec
VIEW View
INVARIANTS Reads Spacing Names Emitted
CHECK_DEADLOCK FALSE
