SPECIFICATION Spec
CONSTANTS VALS = {0, 1, 2, 4, 7} EPS = {0, 1, 2, 3} STEPS = 6 FAULT = "none" GENERATE = FALSE
INVARIANTS LastTwo
CHECK_DEADLOCK FALSE
