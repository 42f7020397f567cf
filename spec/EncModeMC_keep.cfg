SPECIFICATION Spec
CONSTANTS KEYS = {1, 2} VALS = {0, 1, 5} CALLS = 3 FAULT = "keep" GENERATE = FALSE
INVARIANTS Current
CHECK_DEADLOCK FALSE
