SPECIFICATION Spec
CONSTANTS FAULT = "nested" GENERATE = FALSE PAIRS = 1 JOINT = FALSE ROOTS = {"BoostingTreeParam", "DecisionTreeParam", "ObjectiveParam", "EncryptParam", "EncryptedModeCalculatorParam", "PredictParam", "CrossValidationParam", "EvaluateParam", "FeatureBinningParam", "TransformParam"}
INVARIANTS AsDocumented
CHECK_DEADLOCK FALSE
