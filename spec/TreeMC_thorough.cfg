SPECIFICATION Spec
CONSTANTS N = 4 VALS = {0, 1, 2} GS = {1, 4} HOSTS = 1 MINLEAF = {1, 2} DEPTH = {3} MUT = "" GENERATE = FALSE
INVARIANTS Lossless Numbered Partition SumsAdd SizesOK Shallow
PROPERTY Finishes
CHECK_DEADLOCK FALSE
