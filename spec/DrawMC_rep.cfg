SPECIFICATION Spec
CONSTANTS FEATS <- F55 NUM = 1 DEN = 2 TREES = 2 FAULT = "rep"
INVARIANTS Counts Owned
CHECK_DEADLOCK FALSE
