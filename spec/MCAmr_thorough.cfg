SPECIFICATION Spec
CONSTANTS
  Configs <- AllSmall
  Dt = 4
  MaxSteps = 1
  OutFluxes = {0, 1}
  InFluxes = {0, 1}
  MaxFails = 1
  Regrids = TRUE
INVARIANTS Conservation Synchronized CoveredIsFiner EverythingAdvanced NoOvertaking NoDeadEnd
CHECK_DEADLOCK FALSE
