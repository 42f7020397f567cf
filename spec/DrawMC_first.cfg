SPECIFICATION Spec
CONSTANTS FEATS <- F342 NUM = 1 DEN = 2 TREES = 4 FAULT = "first"
INVARIANTS Stuck
CHECK_DEADLOCK FALSE
