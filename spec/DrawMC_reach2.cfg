SPECIFICATION Spec
CONSTANTS FEATS <- F55 NUM = 1 DEN = 2 TREES = 3 FAULT = "none"
INVARIANTS Stuck
CHECK_DEADLOCK FALSE
