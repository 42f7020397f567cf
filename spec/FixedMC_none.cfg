SPECIFICATION Spec
CONSTANTS N = 100 E = 2 STEPS = 4 FAULT = "none"
INVARIANTS Exact Inside
CHECK_DEADLOCK FALSE
