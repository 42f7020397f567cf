SPECIFICATION Spec
CONSTANTS TASKS = {"t1", "job2"} FLOWS = {"train", "a.b"} NAMES = {"loss", "auc"} FOLDS = {0, 1, 2} STEPS = 5 FAULT = "none" GENERATE = FALSE
INVARIANTS Named CurveIsFlow IdMatches
PROPERTIES IdOfTask
CHECK_DEADLOCK FALSE
