SPECIFICATION Spec
CONSTANTS VALS = {1, 2, 3} LENS = {6} HEADS = {1, 2, 3} THRESS = {1, 3} ERRS = {116, 108, 104} FAULT = "head" GENERATE = FALSE QD = 8
INVARIANTS Counted Kept Ranks Promise
CHECK_DEADLOCK FALSE
