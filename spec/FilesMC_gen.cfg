SPECIFICATION Spec
CONSTANTS ROWS = {0, 1, 2, 3, 5, 8, 13, 29} COLS = {0, 1, 2, 5} CELLS = {0, 1, 2, 3, 5, 7, 10, 33, 100, 401} BLANKS = {0, 0, 1, 2} SEEDS = {0, 1, 2, 7, 12345} DENS = {1, 2, 4, 5, 8, 10} FAULT = "none" GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
