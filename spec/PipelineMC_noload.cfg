SPECIFICATION Spec
CONSTANTS FAULT = "noload" GENERATE = FALSE
INVARIANTS FitFirst LoadFirst OffMeansNothing CvAlone HoldsAll AsPlanned
CHECK_DEADLOCK FALSE
