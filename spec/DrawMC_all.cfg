SPECIFICATION Spec
CONSTANTS FEATS <- F55 NUM = 1 DEN = 1 TREES = 2 FAULT = "none"
INVARIANTS Counts Owned
CHECK_DEADLOCK FALSE
