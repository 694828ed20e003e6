SPECIFICATION Spec
CONSTANTS
  K = 7
  Nus = {"0", "0.25", "0.5", "0.75", "1"}
  Rhos = {"0.5", "3"}
  Us = {"-1.5", "0", "3"}
  Ps = {"0.25", "2"}
  Msqs = {"1", "0.25"}
  Dims = {1, 2, 3}
INVARIANTS LimiterLaws MaximumPrinciple ExactAtCflOne ConstantsStay CharInverse CharIsPrim MirrorImages AxesAlike SamePredictor ScalesBound
CHECK_DEADLOCK FALSE
