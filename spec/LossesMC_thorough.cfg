SPECIFICATION Spec
CONSTANTS FAULT = "none" GENERATE = FALSE BIG = TRUE
INVARIANTS Least Bounded AddsUp TwoAreTwo Symmetric GradientIsSlope HessianIsSlope
CHECK_DEADLOCK FALSE
