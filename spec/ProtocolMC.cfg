SPECIFICATION Spec
CONSTANTS N = 2 DEPTH = 3 DIM = 2 ROUNDS = 2 BATCH = 2 STOP = 1 LOOPS = 2 FAULT = "none" GENERATE = FALSE
INVARIANTS LockStep NoLeftover SameTrees
