SPECIFICATION Spec
CONSTANTS HDR = 4 BODY = {1, 2, 4} MAXMSG = 4 SHORT = FALSE NOEOF = FALSE GENERATE = TRUE
INVARIANTS FramedAny Emit
CHECK_DEADLOCK FALSE
