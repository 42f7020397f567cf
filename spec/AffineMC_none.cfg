SPECIFICATION Spec
CONSTANTS NS = {101, 128, 90} VALS = {0, 1, 5, 40, 80} STEPS = 3 FAULT = "none"
INVARIANTS Faithful Rsa
CHECK_DEADLOCK FALSE
