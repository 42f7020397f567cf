SPECIFICATION Spec
CONSTANTS KEYS = {1, 2} VALS = {0, 1, 5} CALLS = 3 FAULT = "none" GENERATE = FALSE
INVARIANTS Current Fresh
CHECK_DEADLOCK FALSE
