SPECIFICATION Spec
CONSTANTS R = 3 KEYS = {0, 1, 2, 5, 100, 101, 200, 300} VALS = {0, 1, 3, 8} MAXLEN = 12 DEPTH = 14 GENERATE = TRUE
INVARIANTS TypeOK Laws Emit
CHECK_DEADLOCK FALSE
