SPECIFICATION Spec
CONSTANTS FEATS <- F342 NUM = 2 DEN = 3 TREES = 3 FAULT = "none"
INVARIANTS Counts Owned
CHECK_DEADLOCK FALSE
