SPECIFICATION Spec
CONSTANTS NN = 2 VALS = 3 FAULT = "none" GENERATE = FALSE MAXN = 2
INVARIANTS Correct LastIsTotal
CHECK_DEADLOCK FALSE
