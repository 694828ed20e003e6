SPECIFICATION Spec
CONSTANTS
  Rhos = {"0.5", "3"}
  Us = {"-1.5", "0", "2"}
  Ps = {"0.25", "2"}
  Gammas = {"1.4"}
  Msqs = {"1", "0.25"}
INVARIANTS RoundTrips MirrorTwice MirrorKeepsState MirrorFlux RotationInvariance Homogeneous Scales Kinetic Isentropes Velocities
CHECK_DEADLOCK FALSE
