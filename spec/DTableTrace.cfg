SPECIFICATION TSpec
CONSTANTS R = 3 InitSt <- TInitSt Fails <- TFails Step <- DStepSt FinalFails <- NoFinalFails
CHECK_DEADLOCK FALSE
