CONSTANTS Start <- StartT
SPECIFICATION Spec
INVARIANTS Conserved NonNegative Inert RatesProper
CHECK_DEADLOCK FALSE
