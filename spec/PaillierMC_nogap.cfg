SPECIFICATION Spec
CONSTANTS P = 7 Q = 11 FAULT = "nogap" STEPS = 3 MAXV = 30 E = 0
INVARIANTS Faithful Noticed Group Algebra Injective
CHECK_DEADLOCK FALSE
