SPECIFICATION Spec
CONSTANTS VALS = {0, 1, 2, 4} EPS = {0, 1, 2, 3} STEPS = 5 FAULT = "none" GENERATE = FALSE
INVARIANTS LastTwo
CHECK_DEADLOCK FALSE
