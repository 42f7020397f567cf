SPECIFICATION Spec
CONSTANTS NS = {1, 2, 3} MAXMSG = 5 MAXLEN = 100 DROPLAST = FALSE SWAP = FALSE GENERATE = FALSE
INVARIANTS Delivered
CHECK_DEADLOCK FALSE
