SPECIFICATION Spec
CONSTANTS HDR = 3 BODY = {1, 2, 3, 4} MAXMSG = 3 SHORT = FALSE NOEOF = FALSE GENERATE = FALSE
INVARIANTS Framed FramedAny NoFalseFailure
PROPERTY Terminates
CHECK_DEADLOCK FALSE
