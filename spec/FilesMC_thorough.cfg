SPECIFICATION Spec
CONSTANTS ROWS = {0, 1, 2, 3} COLS = {0, 1, 2} CELLS = {0, 1} BLANKS = {0, 1} SEEDS = {0, 1} DENS = {3, 4} FAULT = "none" GENERATE = FALSE
INVARIANTS Reading Aligned Parts
CHECK_DEADLOCK FALSE
