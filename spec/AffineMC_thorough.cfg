SPECIFICATION Spec
CONSTANTS NS = {101, 128, 90, 17} VALS = {0, 1, 5, 40, 80} STEPS = 4 FAULT = "none"
INVARIANTS Faithful Rsa
CHECK_DEADLOCK FALSE
