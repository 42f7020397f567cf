SPECIFICATION Spec
CONSTANTS N = 2 DEPTH = 2 DIM = 1 ROUNDS = 1 BATCH = 1 STOP = 0 LOOPS = 1 FAULT = "quiet" GENERATE = FALSE
INVARIANTS LockStep
