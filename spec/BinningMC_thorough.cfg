SPECIFICATION Spec
CONSTANTS LOW = 2 HIGH = 3 LENS = {1, 2, 3, 4, 5} BINS = {1, 2, 3, 4, 5, 6, 7} FAULT = "none" GENERATE = FALSE COLS = 1
INVARIANTS Ordered Mono Agrees ZeroBin Alike Frequency
CHECK_DEADLOCK FALSE
