SPECIFICATION Spec
CONSTANTS
  Rhos = {"0.5", "3"}
  Us = {"-1.5", "0", "3"}
  Vs = {"0.25", "-1"}
  Ps = {"0.25", "2"}
  Msqs = {"1", "0.25"}
  Dims = {1, 2, 3}
INVARIANTS AxesAlike Consistent MirrorSymmetric UpwindIfSupersonic Conservative Positive SpeedsNested Bounds KeepsContacts Scales
CHECK_DEADLOCK FALSE
