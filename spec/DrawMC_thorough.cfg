SPECIFICATION Spec
CONSTANTS FEATS <- F653 NUM = 1 DEN = 2 TREES = 2 FAULT = "none"
INVARIANTS Counts Owned
CHECK_DEADLOCK FALSE
