SPECIFICATION Spec
CONSTANTS FAULT = "none" GENERATE = TRUE PAIRS = 1 JOINT = FALSE ROOTS = {"BoostingTreeParam", "DecisionTreeParam", "ObjectiveParam", "EncryptParam", "EncryptedModeCalculatorParam", "PredictParam", "CrossValidationParam", "EvaluateParam", "FeatureBinningParam", "TransformParam"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
