SPECIFICATION Spec
CONSTANTS FAULT = "none" GENERATE = FALSE PAIRS = 3 JOINT = TRUE ROOTS = {"BoostingTreeParam"}
INVARIANTS AsDocumented
CHECK_DEADLOCK FALSE
