SPECIFICATION Spec
CONSTANTS LOW = 6 HIGH = 9 LENS = {1, 2, 3, 5, 8, 13, 21, 40} BINS = {1, 2, 3, 4, 5, 7, 10, 16} FAULT = "none" GENERATE = TRUE COLS = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
