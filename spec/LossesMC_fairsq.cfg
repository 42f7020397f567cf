SPECIFICATION Spec
CONSTANTS FAULT = "fairsq" GENERATE = FALSE BIG = FALSE
INVARIANTS HessianIsSlope
CHECK_DEADLOCK FALSE
