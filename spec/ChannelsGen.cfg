SPECIFICATION Spec
CONSTANTS NS = {1, 2, 3, 4, 5} MAXMSG = 18 MAXLEN = 100 DROPLAST = FALSE SWAP = FALSE GENERATE = TRUE
INVARIANTS Delivered Emit
CHECK_DEADLOCK FALSE
