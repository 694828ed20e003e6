SPECIFICATION Spec
CONSTANTS
  Configs <- Small
  Dt = 2
  MaxSteps = 1
  OutFluxes = {3}
  InFluxes = {1}
  MaxFails = 1
  Regrids = TRUE
INVARIANTS Conservation Synchronized CoveredIsFiner EverythingAdvanced NoOvertaking NoDeadEnd
CHECK_DEADLOCK FALSE
