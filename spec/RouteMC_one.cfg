SPECIFICATION Spec
CONSTANTS INNER = 3 HOSTS = 2 MUT = "one"
INVARIANTS OneLeaf OnPath
PROPERTY Progress
CHECK_DEADLOCK FALSE
