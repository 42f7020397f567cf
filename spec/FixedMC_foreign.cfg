SPECIFICATION Spec
CONSTANTS N = 100 E = 1 STEPS = 3 FAULT = "foreign"
INVARIANTS Exact
CHECK_DEADLOCK FALSE
