SPECIFICATION Spec
CONSTANTS
  Rhos = {"0.5", "3"}
  Us = {"-4", "-1.5", "0", "0.2", "3"}
  Vs = {"0.25"}
  Ps = {"0.25", "2"}
  Gammas = {"1.1", "1.4", "1.66"}
  Ratios = {"0.001", "0.01", "0.5", "0.99", "1", "1.01", "1.5", "40", "1000"}
  Xis = {"-6", "-2.1", "-1", "-0.3", "0", "0.4", "1.7", "5"}
INVARIANTS JumpConditions Rarefactions NoWave Stronger Carries Middle Symmetric Galilean Ordered Positive Scalar
CHECK_DEADLOCK FALSE
