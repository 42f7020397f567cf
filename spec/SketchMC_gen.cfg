SPECIFICATION Spec
CONSTANTS VALS = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30} LENS = {0, 1, 2, 5, 9, 14, 20, 31, 45} HEADS = {1, 2, 3, 7, 16, 100} THRESS = {1, 2, 5, 12, 1000} ERRS = {1, 164, 132, 116, 108, 104} FAULT = "none" GENERATE = TRUE QD = 8
INVARIANTS Emit
CHECK_DEADLOCK FALSE
