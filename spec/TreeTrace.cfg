SPECIFICATION TSpec
CONSTANTS InitSt <- TInitSt Fails <- TFails Step <- TStep FinalFails <- TFinal
CHECK_DEADLOCK FALSE
