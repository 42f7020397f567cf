SPECIFICATION Spec
CONSTANTS FAULT = "all" GENERATE = FALSE BIG = FALSE
INVARIANTS AddsUp
CHECK_DEADLOCK FALSE
