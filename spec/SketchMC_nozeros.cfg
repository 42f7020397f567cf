SPECIFICATION Spec
CONSTANTS VALS = {1, 2, 3, 4} LENS = {5} HEADS = {1, 2, 3} THRESS = {1, 3} ERRS = {1, 116, 108, 104} FAULT = "nozeros" GENERATE = FALSE QD = 8
INVARIANTS SparsePromise
CHECK_DEADLOCK FALSE
