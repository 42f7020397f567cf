SPECIFICATION TSpec
CONSTANTS InitSt <- TInitSt Fails <- Fl Step <- St FinalFails <- Fin
CHECK_DEADLOCK FALSE
