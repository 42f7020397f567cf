SPECIFICATION Spec
CONSTANTS NN = 1 VALS = 3 FAULT = "none" GENERATE = TRUE MAXN = 8
INVARIANTS Correct LastIsTotal Emit
CHECK_DEADLOCK FALSE
