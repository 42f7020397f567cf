SPECIFICATION Spec
CONSTANTS CODES <- Small WIDTH = 4 LABELS = {1, 2, 3, 4} LIMIT = 2 FAULT = "none" GENERATE = FALSE
INVARIANTS Faithful Counted LabelsRight Total
CHECK_DEADLOCK FALSE
