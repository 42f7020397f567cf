SPECIFICATION Spec
CONSTANTS R = 2 KEYS = {0, 1, 2} VALS = {0, 3} MAXLEN = 3 DEPTH = 4 GENERATE = FALSE
INVARIANTS TypeOK Laws
PROPERTY OnlyDst
VIEW View
CHECK_DEADLOCK FALSE
