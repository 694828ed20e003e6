SPECIFICATION Spec
CONSTANTS
  Finals = {4, 6}
  Ests = {2, 4, 6}
  MaxFails = 2
  StartCycles = {0, 1}
  Outs <- OutsDef
INVARIANTS NoOverstep StepSound CycleBound FinishedProperly RolledBack StopsOnlyWithoutBackup OnlyDue OnlyOnce NoneMissed FinalShown
PROPERTIES TimeMonotone RetryUsesEstimate Terminates
CHECK_DEADLOCK FALSE
