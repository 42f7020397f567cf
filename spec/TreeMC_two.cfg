SPECIFICATION Spec
CONSTANTS N = 3 VALS = {0, 1} GS = {0, 3} HOSTS = 2 MINLEAF = {1, 2} DEPTH = {3} MUT = "" GENERATE = FALSE
INVARIANTS Lossless Numbered Partition SumsAdd SizesOK Shallow

CHECK_DEADLOCK FALSE
