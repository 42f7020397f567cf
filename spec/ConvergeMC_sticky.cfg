SPECIFICATION Spec
CONSTANTS VALS = {0, 1, 2, 4} EPS = {0, 1, 2, 3} STEPS = 4 FAULT = "sticky" GENERATE = FALSE
INVARIANTS LastTwo
CHECK_DEADLOCK FALSE
