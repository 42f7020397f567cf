SPECIFICATION Spec
CONSTANTS LABELS = {2, 5, 7, 8} LEN = 5 GRID = 2 FAULT = "none" GENERATE = FALSE
INVARIANTS Pairing TwoClasses ManyClasses
CHECK_DEADLOCK FALSE
