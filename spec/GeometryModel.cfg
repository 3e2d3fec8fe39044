SPECIFICATION Spec
INVARIANTS Packing Rounding Counting Sizes Out
CHECK_DEADLOCK FALSE
