SPECIFICATION Spec
CONSTANTS CALLS = 5 OPS = {"fit", "bin", "predict"} TABLES = 2 FAULT = "none" GENERATE = FALSE
INVARIANTS Untouched
CHECK_DEADLOCK FALSE
