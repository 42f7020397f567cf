SPECIFICATION TSpec
CONSTANTS InitSt <- TInitSt Fails <- TFails Step <- FStep FinalFails <- TFinal
CHECK_DEADLOCK FALSE
