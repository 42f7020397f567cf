SPECIFICATION Spec
CONSTANTS FAULT = "lose" GENERATE = FALSE
INVARIANTS FitFirst LoadFirst OffMeansNothing CvAlone HoldsAll AsPlanned
CHECK_DEADLOCK FALSE
