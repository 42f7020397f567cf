SPECIFICATION Spec
CONSTANTS N = 1009 E = 2 STEPS = 5 FAULT = "none"
INVARIANTS Exact Inside
CHECK_DEADLOCK FALSE
