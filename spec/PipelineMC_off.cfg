SPECIFICATION Spec
CONSTANTS FAULT = "off" GENERATE = FALSE
INVARIANTS FitFirst LoadFirst OffMeansNothing CvAlone HoldsAll AsPlanned
CHECK_DEADLOCK FALSE
