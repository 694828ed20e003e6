CONSTANTS Start <- StartQ
SPECIFICATION Spec
INVARIANTS Conserved NonNegative Inert RatesProper
CHECK_DEADLOCK FALSE
