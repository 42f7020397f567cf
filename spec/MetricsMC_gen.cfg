SPECIFICATION Spec
CONSTANTS TASKS = {"t1", "job2", "x"} FLOWS = {"train", "a.b", "predict", "fold.0.validate"} NAMES = {"loss", "auc", "k s"} FOLDS = {0, 1, 2, 9, 10} STEPS = 12 FAULT = "none" GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
