SPECIFICATION Spec
CONSTANTS N = 3 VALS = {0, 1} GS = {1, 3} HOSTS = 1 MINLEAF = {1} DEPTH = {2} MUT = "hosttie" GENERATE = FALSE
INVARIANTS Lossless Numbered Partition SumsAdd SizesOK Shallow

CHECK_DEADLOCK FALSE
