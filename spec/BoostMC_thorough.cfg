SPECIFICATION Spec
CONSTANTS N = 2 DIM = 2 ROUNDS = 3 W = {0, 1} HOSTS = 2 STOP = TRUE FAULT = "none"
INVARIANTS Scores AtStart Counts
CHECK_DEADLOCK FALSE
