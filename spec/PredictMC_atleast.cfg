SPECIFICATION Spec
CONSTANTS LABELS = {2, 5, 7} LEN = 4 GRID = 2 FAULT = "atleast" GENERATE = FALSE
INVARIANTS Pairing TwoClasses ManyClasses
CHECK_DEADLOCK FALSE
