CONSTANTS NX = 3
NY = 2
V = 2
SPECIFICATION Spec
INVARIANT Halves
PROPERTY Conserves
CHECK_DEADLOCK FALSE
