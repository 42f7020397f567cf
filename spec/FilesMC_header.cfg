SPECIFICATION Spec
CONSTANTS ROWS = {0, 1, 2, 3} COLS = {1} CELLS = {0, 1} BLANKS = {0, 1} SEEDS = {0, 1} DENS = {3} FAULT = "header" GENERATE = FALSE
INVARIANTS Reading Aligned Parts
CHECK_DEADLOCK FALSE
