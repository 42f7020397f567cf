SPECIFICATION Spec
CONSTANTS FAULT = "none" GENERATE = TRUE BIG = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
