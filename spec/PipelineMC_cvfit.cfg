SPECIFICATION Spec
CONSTANTS FAULT = "cvfit" GENERATE = FALSE
INVARIANTS FitFirst LoadFirst OffMeansNothing CvAlone HoldsAll AsPlanned
CHECK_DEADLOCK FALSE
