SPECIFICATION Spec
CONSTANTS CODES <- Wide WIDTH = 9 LABELS = {1} LIMIT = 2 FAULT = "none" GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
