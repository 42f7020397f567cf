SPECIFICATION Spec
CONSTANTS CODES <- Small WIDTH = 3 LABELS = {1, 2, 3, 4} LIMIT = 2 FAULT = "default" GENERATE = FALSE
INVARIANTS Faithful Counted LabelsRight Total
CHECK_DEADLOCK FALSE
