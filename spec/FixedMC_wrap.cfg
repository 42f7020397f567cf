SPECIFICATION Spec
CONSTANTS N = 100 E = 2 STEPS = 4 FAULT = "wrap"
INVARIANTS Exact
CHECK_DEADLOCK FALSE
