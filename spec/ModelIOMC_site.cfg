SPECIFICATION Spec
CONSTANTS VALS = {1, 2} WEIGHTS = {3, 4} FAULT = "site"
INVARIANTS Same Stable Alike
CHECK_DEADLOCK FALSE
