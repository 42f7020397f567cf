SPECIFICATION Spec
CONSTANTS LOW = 1 HIGH = 2 LENS = {1, 2, 3, 4} BINS = {1, 2, 3, 4, 5} FAULT = "none" GENERATE = FALSE COLS = 1
INVARIANTS Ordered Mono Agrees ZeroBin Alike Frequency
CHECK_DEADLOCK FALSE
