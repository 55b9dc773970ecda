SPECIFICATION Spec
INVARIANTS Told Middle
CHECK_DEADLOCK FALSE
