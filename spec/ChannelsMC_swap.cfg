SPECIFICATION Spec
CONSTANTS NS = {2} MAXMSG = 3 MAXLEN = 100 DROPLAST = FALSE SWAP = TRUE GENERATE = FALSE
INVARIANTS Delivered
CHECK_DEADLOCK FALSE
