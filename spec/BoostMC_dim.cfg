SPECIFICATION Spec
CONSTANTS N = 1 DIM = 2 ROUNDS = 3 W = {0, 1, 2} HOSTS = 2 STOP = TRUE FAULT = "dim"
INVARIANTS Scores AtStart Counts
CHECK_DEADLOCK FALSE
