CONSTANTS C = 3
MaxN = 4
Rows = 2
W = 2
V = 1
SPECIFICATION Spec
INVARIANTS EveryFace LeastStep Boxed
PROPERTY Ends
CHECK_DEADLOCK FALSE
