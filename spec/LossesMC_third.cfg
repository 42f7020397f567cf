SPECIFICATION Spec
CONSTANTS FAULT = "third" GENERATE = FALSE BIG = FALSE
INVARIANTS HessianIsSlope
CHECK_DEADLOCK FALSE
