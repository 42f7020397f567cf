SPECIFICATION Spec
CONSTANTS FAULT = "none" GENERATE = FALSE BIG = FALSE
INVARIANTS Least Bounded AddsUp TwoAreTwo Symmetric GradientIsSlope HessianIsSlope
CHECK_DEADLOCK FALSE
