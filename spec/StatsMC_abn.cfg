SPECIFICATION Spec
CONSTANTS VALS = {0, 1, 2, 5} SIZE = 2 PARTS = 2 FAULT = "abn"
INVARIANTS Counted
CHECK_DEADLOCK FALSE
