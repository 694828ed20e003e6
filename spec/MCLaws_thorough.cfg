SPECIFICATION Spec
CONSTANTS
  Rhos = {"0.5", "3", "0.001"}
  Us = {"-1.5", "0", "2", "0.125"}
  Ps = {"0.25", "2", "100"}
  Gammas = {"1.4", "1.125", "1.75"}
  Msqs = {"1", "0.25"}
INVARIANTS RoundTrips MirrorTwice MirrorKeepsState MirrorFlux RotationInvariance Homogeneous Scales Kinetic Isentropes Velocities
CHECK_DEADLOCK FALSE
