CONSTANTS NX = 4
NY = 3
WMax = 2
SPECIFICATION Spec
INVARIANTS Exact Keeps Adds
CHECK_DEADLOCK FALSE
