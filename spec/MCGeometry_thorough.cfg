CONSTANTS N = 3
ChunkSize = 8
SPECIFICATION Spec
INVARIANTS Orientation Lipschitz Sets EveryEdge
CHECK_DEADLOCK FALSE
