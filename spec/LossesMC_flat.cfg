SPECIFICATION Spec
CONSTANTS FAULT = "flat" GENERATE = FALSE BIG = FALSE
INVARIANTS GradientIsSlope
CHECK_DEADLOCK FALSE
