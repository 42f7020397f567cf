SPECIFICATION Spec
CONSTANTS LOW = 1 HIGH = 2 LENS = {3, 4} BINS = {2, 3, 4} FAULT = "strict" GENERATE = FALSE COLS = 1
INVARIANTS Ordered Mono Agrees ZeroBin Alike Frequency
CHECK_DEADLOCK FALSE
