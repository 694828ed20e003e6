CONSTANTS R = 3
N = 2
SPECIFICATION Spec
INVARIANT Meaning
CHECK_DEADLOCK FALSE
