SPECIFICATION Spec
CONSTANTS KEYS = {1, 2} VALS = {0, 1} CALLS = 2 FAULT = "rate" GENERATE = FALSE
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
