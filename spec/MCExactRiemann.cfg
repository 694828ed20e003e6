SPECIFICATION Spec
CONSTANTS
  Rhos = {"0.5", "3"}
  Us = {"-1.5", "0", "3"}
  Vs = {"0.25"}
  Ps = {"0.25", "2"}
  Gammas = {"1.4"}
  Ratios = {"0.01", "0.5", "1", "1.5", "40"}
  Xis = {"-2.1", "0", "0.4"}
INVARIANTS JumpConditions Rarefactions NoWave Stronger Carries Middle Symmetric Galilean Ordered Positive Scalar
CHECK_DEADLOCK FALSE
