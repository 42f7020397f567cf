SPECIFICATION Spec
CONSTANTS N = 3 VALS = {0, 1} GS = {1, 3} HOSTS = 1 MINLEAF = {2} DEPTH = {2} MUT = "hostmin" GENERATE = FALSE
INVARIANTS Lossless Numbered Partition SumsAdd SizesOK Shallow

CHECK_DEADLOCK FALSE
