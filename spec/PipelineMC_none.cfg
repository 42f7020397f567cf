SPECIFICATION Spec
CONSTANTS FAULT = "none" GENERATE = FALSE
INVARIANTS FitFirst LoadFirst OffMeansNothing CvAlone HoldsAll AsPlanned
CHECK_DEADLOCK FALSE
