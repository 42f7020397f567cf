SPECIFICATION MSpec
CONSTANTS VALS = {1, 2, 3} LENS = {3} HEADS = {1, 9} THRESS = {1, 9} ERRS = {108} FAULT = "lost" GENERATE = FALSE QD = 8 PARTS = 2
INVARIANTS MKept
CHECK_DEADLOCK FALSE
