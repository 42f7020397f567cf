SPECIFICATION Spec
CONSTANTS NS = {101} VALS = {0, 80} STEPS = 2 FAULT = "half"
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
