SPECIFICATION Spec
CONSTANTS CALLS = 3 OPS = {"fit", "bin", "predict"} TABLES = 2 FAULT = "row" GENERATE = FALSE
INVARIANTS Untouched
CHECK_DEADLOCK FALSE
