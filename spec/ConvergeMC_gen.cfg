SPECIFICATION Spec
CONSTANTS VALS = {0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 40, 64, 100} EPS = {0, 1, 2, 3, 4, 6, 8, 16} STEPS = 12 FAULT = "none" GENERATE = TRUE
INVARIANTS LastTwo Emit
CHECK_DEADLOCK FALSE
