SPECIFICATION Spec
CONSTANTS INNER = 3 HOSTS = 2 MUT = "last"
INVARIANTS OneLeaf OnPath
PROPERTY Progress
CHECK_DEADLOCK FALSE
