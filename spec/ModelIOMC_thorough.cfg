SPECIFICATION Spec
CONSTANTS VALS = {1, 2, 3} WEIGHTS = {3, 4, 5} FAULT = "none"
INVARIANTS Same Stable Alike
CHECK_DEADLOCK FALSE
