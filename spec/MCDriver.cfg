SPECIFICATION Spec
CONSTANTS
  Finals = {4}
  Ests = {2, 4}
  MaxFails = 1
  StartCycles = {0}
  Outs <- OutsDef
INVARIANTS NoOverstep StepSound CycleBound FinishedProperly RolledBack StopsOnlyWithoutBackup OnlyDue OnlyOnce NoneMissed FinalShown
PROPERTIES TimeMonotone RetryUsesEstimate Terminates
CHECK_DEADLOCK FALSE
