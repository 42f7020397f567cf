SPECIFICATION Spec
CONSTANTS VALS = {0, 1, 2, 5} SIZE = 3 PARTS = 2 FAULT = "none"
INVARIANTS Counted Extremes Variance Means
CHECK_DEADLOCK FALSE
