SPECIFICATION Spec
CONSTANTS P = 7 Q = 11 FAULT = "noalign" STEPS = 3 MAXV = 3 E = 1
INVARIANTS Faithful Noticed Group Algebra Injective
CHECK_DEADLOCK FALSE
