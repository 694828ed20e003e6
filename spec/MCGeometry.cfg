CONSTANTS N = 2
ChunkSize = 8
SPECIFICATION Spec
INVARIANTS Orientation Lipschitz Sets EveryEdge
CHECK_DEADLOCK FALSE
