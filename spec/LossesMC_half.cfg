SPECIFICATION Spec
CONSTANTS FAULT = "half" GENERATE = FALSE BIG = FALSE
INVARIANTS GradientIsSlope
CHECK_DEADLOCK FALSE
