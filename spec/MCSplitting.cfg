SPECIFICATION Spec
CONSTANT MaxOps = 5
INVARIANTS Meets Bounded
CHECK_DEADLOCK FALSE
