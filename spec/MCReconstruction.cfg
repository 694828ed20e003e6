SPECIFICATION Spec
CONSTANTS
  K = 3
  Nus = {"0", "0.25", "0.5", "0.75", "1"}
  Rhos = {"0.5", "3"}
  Us = {"-1.5", "3"}
  Ps = {"0.25", "2"}
  Msqs = {"0.25"}
  Dims = {2}
INVARIANTS LimiterLaws MaximumPrinciple ExactAtCflOne ConstantsStay CharInverse CharIsPrim MirrorImages AxesAlike SamePredictor ScalesBound
CHECK_DEADLOCK FALSE
