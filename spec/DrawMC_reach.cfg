SPECIFICATION Spec
CONSTANTS FEATS <- F342 NUM = 1 DEN = 2 TREES = 4 FAULT = "none"
INVARIANTS NeverAll
CHECK_DEADLOCK FALSE
