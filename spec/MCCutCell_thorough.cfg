SPECIFICATION Spec
CONSTANTS
  Fracs = {"0", "0.125", "0.5", "0.75", "1"}
  Fs = {"-1", "2"}
  Bs = {"-1", "0.5", "2"}
  Cs = {"-0.5", "-0.25", "0", "0.75"}
  Alphas = {"0.0625", "0.25", "1"}
  Rhos = {"0.5", "2"}
  Us = {"-3", "-0.5", "0", "1", "2"}
  Ps = {"0.25", "2"}
  Gammas = {"1.4", "1.2", "3"}
  Normals <- Some3
INVARIANTS SharesOk MeanOk Extremes StepOk Uniform MirrorImage Exchange Strips WallOk WallFluxOk
CHECK_DEADLOCK FALSE
