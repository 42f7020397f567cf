SPECIFICATION Spec
CONSTANTS FAULT = "none" GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
