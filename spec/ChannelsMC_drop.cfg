SPECIFICATION Spec
CONSTANTS NS = {1, 2} MAXMSG = 3 MAXLEN = 100 DROPLAST = TRUE SWAP = FALSE GENERATE = FALSE
INVARIANTS Delivered
CHECK_DEADLOCK FALSE
