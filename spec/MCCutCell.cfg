SPECIFICATION Spec
CONSTANTS
  Fracs = {"0", "0.25", "0.5", "1"}
  Fs = {"-1", "2"}
  Bs = {"-1", "2"}
  Cs = {"-0.25", "0.5"}
  Alphas = {"0.25", "0.75"}
  Rhos = {"0.5", "2"}
  Us = {"-3", "-0.5", "0", "1"}
  Ps = {"0.25", "2"}
  Gammas = {"1.4"}
  Normals <- Some2
INVARIANTS SharesOk MeanOk Extremes StepOk Uniform MirrorImage Exchange Strips WallOk WallFluxOk
CHECK_DEADLOCK FALSE
