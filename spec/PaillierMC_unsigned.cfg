SPECIFICATION Spec
CONSTANTS P = 7 Q = 11 FAULT = "unsigned" STEPS = 2 MAXV = 3 E = 1
INVARIANTS Faithful Noticed Group Algebra Injective
CHECK_DEADLOCK FALSE
