SPECIFICATION Spec
CONSTANTS N = 2 DEPTH = 2 DIM = 1 ROUNDS = 2 BATCH = 1 STOP = 1 LOOPS = 1 FAULT = "none" GENERATE = FALSE
INVARIANTS LockStep NoLeftover SameTrees
PROPERTY Completes
