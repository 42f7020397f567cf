SPECIFICATION Spec
CONSTANTS FAULT = "none" GENERATE = FALSE PAIRS = 2 JOINT = TRUE ROOTS = {"BoostingTreeParam", "ObjectiveParam", "EncryptedModeCalculatorParam"}
INVARIANTS AsDocumented
CHECK_DEADLOCK FALSE
