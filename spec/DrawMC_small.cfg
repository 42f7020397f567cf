SPECIFICATION Spec
CONSTANTS FEATS <- F13 NUM = 1 DEN = 10 TREES = 3 FAULT = "none"
INVARIANTS Counts Owned
CHECK_DEADLOCK FALSE
