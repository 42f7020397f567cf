SPECIFICATION Spec
CONSTANTS NS = {101} VALS = {0, 1, 5} STEPS = 3 FAULT = "offset"
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
