SPECIFICATION Spec
CONSTANTS N = 3 DEPTH = 2 DIM = 1 ROUNDS = 2 BATCH = 1 STOP = 1 LOOPS = 2 FAULT = "none" GENERATE = FALSE
INVARIANTS LockStep NoLeftover SameTrees
