SPECIFICATION Spec
CONSTANTS N = 4 DEPTH = 2 DIM = 2 ROUNDS = 2 BATCH = 1 STOP = 1 LOOPS = 2 FAULT = "none" GENERATE = FALSE
INVARIANTS LockStep NoLeftover SameTrees
