SPECIFICATION Spec
CONSTANTS INNER = 5 HOSTS = 2 MUT = ""
INVARIANTS OneLeaf OnPath
PROPERTY Progress
CHECK_DEADLOCK FALSE
