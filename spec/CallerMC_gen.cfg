SPECIFICATION Spec
CONSTANTS CALLS = 5 OPS = {"fit", "predict", "bin", "sparsebin", "stats", "alonefit", "alonepredict", "tree", "align"} TABLES = 2 FAULT = "none" GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
