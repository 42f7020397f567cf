SPECIFICATION Spec
CONSTANTS FEATS <- F13 NUM = 1 DEN = 10 TREES = 2 FAULT = "zero"
INVARIANTS Counts Owned
CHECK_DEADLOCK FALSE
