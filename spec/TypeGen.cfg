SPECIFICATION Spec
VIEW View
INVARIANTS RoundTrip Reprint Names OrderLaws Emitted
CHECK_DEADLOCK FALSE
