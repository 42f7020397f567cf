SPECIFICATION Spec
CONSTANTS VALS = {1, 2} WEIGHTS = {3, 4} FAULT = "none"
INVARIANTS Same Stable Alike
CHECK_DEADLOCK FALSE
