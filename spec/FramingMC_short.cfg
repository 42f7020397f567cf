SPECIFICATION Spec
CONSTANTS HDR = 2 BODY = {1, 2, 3} MAXMSG = 2 SHORT = TRUE NOEOF = FALSE GENERATE = FALSE
INVARIANTS Framed FramedAny NoFalseFailure
CHECK_DEADLOCK FALSE
