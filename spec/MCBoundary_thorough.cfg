CONSTANTS N = 4
W = 3
V = 2
SPECIFICATION Spec
INVARIANTS NoLeak Inside Twice
PROPERTY Again
CHECK_DEADLOCK FALSE
