SPECIFICATION Spec
INVARIANTS LoadsWhatWasStored NoAliasing
CHECK_DEADLOCK FALSE
CONSTANTS NX = 3
NY = 2
Depth = 2
Ops = 2
