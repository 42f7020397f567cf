SPECIFICATION Spec
CONSTANTS KEYS = {1, 2, 3, 4} VALS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} CALLS = 5 FAULT = "none" GENERATE = TRUE
INVARIANTS Current Fresh Emit
CHECK_DEADLOCK FALSE
