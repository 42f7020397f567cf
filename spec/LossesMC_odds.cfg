SPECIFICATION Spec
CONSTANTS FAULT = "odds" GENERATE = FALSE BIG = FALSE
INVARIANTS HessianIsSlope
CHECK_DEADLOCK FALSE
