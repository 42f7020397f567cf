SPECIFICATION Spec
CONSTANTS N = 1 DEPTH = 3 DIM = 1 ROUNDS = 1 BATCH = 1 STOP = 0 LOOPS = 1 FAULT = "nobreak" GENERATE = FALSE
INVARIANTS LockStep
