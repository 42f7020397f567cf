SPECIFICATION Spec
CONSTANTS P = 5 Q = 7 FAULT = "none" STEPS = 3 MAXV = 4 E = 2
INVARIANTS Faithful Noticed Group Algebra Injective
CHECK_DEADLOCK FALSE
