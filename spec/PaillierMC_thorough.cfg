SPECIFICATION Spec
CONSTANTS P = 13 Q = 11 FAULT = "none" STEPS = 4 MAXV = 5 E = 1
INVARIANTS Faithful Noticed Group Algebra Injective
CHECK_DEADLOCK FALSE
