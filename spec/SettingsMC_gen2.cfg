SPECIFICATION Spec
CONSTANTS FAULT = "none" GENERATE = TRUE PAIRS = 2 JOINT = TRUE ROOTS = {"BoostingTreeParam", "ObjectiveParam", "EncryptedModeCalculatorParam"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
