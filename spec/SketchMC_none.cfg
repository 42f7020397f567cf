SPECIFICATION Spec
CONSTANTS VALS = {1, 2, 3} LENS = {5} HEADS = {1, 2, 3} THRESS = {1, 3} ERRS = {1, 116, 108, 104} FAULT = "none" GENERATE = FALSE QD = 8
INVARIANTS Counted Kept Ranks Promise Monotone SparsePromise
CHECK_DEADLOCK FALSE
