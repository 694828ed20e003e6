CONSTANTS NX = 3
NY = 2
V = 3
SPECIFICATION Spec
INVARIANT Halves
PROPERTY Conserves
CHECK_DEADLOCK FALSE
