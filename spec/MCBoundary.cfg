CONSTANTS N = 3
W = 2
V = 2
SPECIFICATION Spec
INVARIANTS NoLeak Inside Twice
PROPERTY Again
CHECK_DEADLOCK FALSE
