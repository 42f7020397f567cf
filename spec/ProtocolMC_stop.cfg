SPECIFICATION Spec
CONSTANTS N = 1 DEPTH = 2 DIM = 1 ROUNDS = 2 BATCH = 1 STOP = 1 LOOPS = 1 FAULT = "stoponly" GENERATE = FALSE
INVARIANTS LockStep
