SPECIFICATION Spec
CONSTANTS HDR = 2 BODY = {1, 2, 3} MAXMSG = 2 SHORT = FALSE NOEOF = TRUE GENERATE = FALSE
INVARIANTS Framed FramedAny NoFalseFailure
PROPERTY Terminates
CHECK_DEADLOCK FALSE
