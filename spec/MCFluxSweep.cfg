CONSTANTS C = 3
MaxN = 5
Rows = 1
W = 1
V = 2
SPECIFICATION Spec
INVARIANTS EveryFace LeastStep Boxed
PROPERTY Ends
CHECK_DEADLOCK FALSE
