SPECIFICATION Spec
CONSTANTS DEPTH = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
