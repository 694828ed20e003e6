CONSTANTS R = 2
N = 3
SPECIFICATION Spec
INVARIANT Meaning
CHECK_DEADLOCK FALSE
