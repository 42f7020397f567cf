SPECIFICATION MSpec
CONSTANTS VALS = {1, 2, 3, 4, 5, 6, 7, 8, 9} LENS = {8} HEADS = {9} THRESS = {9} ERRS = {1, 116, 108, 104} FAULT = "none" GENERATE = FALSE QD = 8 PARTS = 4
INVARIANTS MKept MRanks MPromise
CHECK_DEADLOCK FALSE
