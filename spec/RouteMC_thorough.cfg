SPECIFICATION Spec
CONSTANTS INNER = 7 HOSTS = 3 MUT = ""
INVARIANTS OneLeaf OnPath
PROPERTY Progress
CHECK_DEADLOCK FALSE
