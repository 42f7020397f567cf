SPECIFICATION Spec
CONSTANTS DEPTH = 10
INVARIANTS Emit
CHECK_DEADLOCK FALSE
