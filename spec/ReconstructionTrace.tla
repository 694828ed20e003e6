------------------------- MODULE ReconstructionTrace -------------------------
(* Slopes, reconstructions and second and third order fluxes of the code,      *)
(* against module Reconstruction.  A second order method hands two states to   *)
(* the Riemann solver below it: events "muscl" show what a recording solver    *)
(* was given; events "flux" the final flux on top of HLLEM.                    *)
EXTENDS Reconstruction, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
L == Traces[tid].cfg
Tol == "1e-11"
cl(name, ok) == IF ok THEN {} ELSE {<<"C21", name>>}
Zeros(q) == \A i \in DOMAIN q : REq(q[i], "0")
\* a complete state against the expected one, with scales of the variables
\* that it was computed in
ConsFromPrimScale(w) == \* scales of the conserved variables that follow from those of the primitive ones
  LET k == RMul(w[1], Norm2([i \in 1..L.n |-> w[1 + i]])) IN
  <<w[1]>> \o [i \in 1..L.n |-> w[1] (.) w[1 + i]] \o <<RMul(L.msq, k) (+) RDiv(w[L.n + 2], RSub(L.gamma, 1))>>
  \o [i \in 1..(L.ns + L.np) |-> w[1] (.) w[L.n + 2 + i]]
StateIs(m, x, sc, r) ==
  LET s == IF m = "cons" THEN sc ELSE ConsFromPrimScale(sc) IN
  /\ Len(r) = NQ(L)
  /\ \A i \in 1..NC(L) : RWithin(r[i], x[i], RMul(Tol, s[i]))
  /\ IsGas(L) =>
       /\ RWithin(Pr(L, r), Pr(L, x), RMul(Tol, (IF m = "cons" THEN RMul(2, sc[L.n + 2]) ELSE sc[L.n + 2]) (+) RMul(L.gamma, s[L.n + 2])))
       /\ RLess(Zero, Snd(L, r)) /\ RClose(RSq(Snd(L, r)), Snd2(L, r[1], Pr(L, r)), Tol, Zero)
FluxTol == "1e-9"
Broken(e) ==
  CASE e.a = "limit" -> cl("the limited slope", RWithin(e.r[1], Slope(e.k, e.x, e.y), RMul("1e-14", RAbs(e.x) (+) RAbs(e.y))))
    [] e.a = "slope" -> \* of conservative variables, per cell
       LET g == IF e.on THEN Gradient(L, e.k, "cons", e.q, "1", 1) ELSE NoGradient(L, "cons") s == GradientScale(L, "cons", e.q, "1", 1) IN
       cl("the limited slope of a state", Len(e.r) = NC(L) /\ \A i \in 1..NC(L) : RWithin(e.r[i], g[i], RMul("1e-14", s[i])))
    [] e.a = "gradient" ->
       LET g == Gradient(L, e.k, e.m, e.q, e.dx, e.d) s == GradientScale(L, e.m, e.q, e.dx, e.d) IN
       cl("the gradient", Len(e.r) = NC(L) /\ \A i \in 1..NC(L) : RWithin(e.r[i], g[i], RMul(Tol, s[i])))
    [] e.a = "reconstruct" ->
       IF ~RecAdmissible(L, e.m, e.q[1], e.g, e.dt, e.dx, e.d, e.up) THEN {} ELSE
       cl("the reconstructed state",
          StateIs(e.m, Rec(L, e.m, e.q[1], e.g, e.dt, e.dx, e.d, e.up), RecScale(L, e.m, e.q[1], e.g, e.dt, e.dx, e.d), e.r))
    [] e.a = "inverse" -> \* r is found from the reconstruction of q[1]
       cl("the inverse of the reconstruction", \A i \in 1..NQ(L) : RWithin(e.r[i], e.q[1][i], RMul("1e-9", (FromPrim(L, AbsV(ToPrim(L, e.q[1]))))[i] (+) (IF i \in 2..(1 + L.n) THEN RMul(e.q[1][1], Snd(L, e.q[1])) ELSE Zero))))
    [] e.a = "muscl" ->
       IF ~e.open \/ ~MusclAdmissible(L, e.k, e.m, e.q, e.dt, e.dx, e.d, e.on) THEN {} ELSE
       LET x == MusclStates(L, e.k, e.m, e.q, e.dt, e.dx, e.d, e.on) s == MusclScales(L, e.k, e.m, e.q, e.dt, e.dx, e.d) IN
       cl("the state left of the face", StateIs(e.m, x[1], s[1], e.r1))
       \cup cl("the state right of the face", StateIs(e.m, x[2], s[2], e.r2))
    [] e.a = "muscl gradients" -> \* with slopes from elsewhere
       IF ~(RecAdmissible(L, e.m, e.q[1], e.g, e.dt, e.dx, e.d, TRUE) /\ RecAdmissible(L, e.m, e.q[2], e.g2, e.dt, e.dx, e.d, FALSE)) THEN {} ELSE
       cl("the state left of the face", StateIs(e.m, Rec(L, e.m, e.q[1], e.g, e.dt, e.dx, e.d, TRUE), RecScale(L, e.m, e.q[1], e.g, e.dt, e.dx, e.d), e.r1))
       \cup cl("the state right of the face", StateIs(e.m, Rec(L, e.m, e.q[2], e.g2, e.dt, e.dx, e.d, FALSE), RecScale(L, e.m, e.q[2], e.g2, e.dt, e.dx, e.d), e.r2))
    [] e.a = "passes" -> \* arguments and results pass through unchanged
       cl("what passes through the method: " \o e.what, e.ok)
    [] e.a = "flux" ->
       IF ~e.open THEN cl("flux through a closed face", Zeros(e.r)) ELSE
       IF ~MusclAdmissible(L, e.k, e.m, e.q, e.dt, e.dx, e.d, e.on) THEN {} ELSE
       LET x == MusclStates(L, e.k, e.m, e.q, e.dt, e.dx, e.d, e.on)
           s == HllemScale(L, x[1], x[2], e.d) IN
       cl("the numerical flux", Close(e.r, HllemFlux(L, TRUE, x[1], x[2], e.d), s, FluxTol))
    [] e.a = "dt" ->
       IF ~e.open THEN cl("a closed face limits the step", RLess("1e300", e.r[1]) \/ e.r[1] = "inf") ELSE
       LET s == HllemSpeeds(L, e.q[2], e.q[3], e.d) IN
       cl("the stable step", RClose(e.r[1], RDiv(e.dx, RMax(RAbs(s[1]), RAbs(s[2]))), Tol, Zero))
    [] e.a = "rk3" ->
       cl("the flux of the Runge-Kutta method",
          Close(e.r, RungeKuttaFlux(L, e.q, e.dt, e.dx, e.eta, e.kappa), RungeKuttaScale(L, e.q, e.dx, e.eta, e.kappa), "1e-10"))
    [] e.a = "rk3 dt" ->
       LET sp(q) == RAbs(q[2] (/) q[1]) (+) Snd(L, q) IN
       cl("the stable step", RClose(e.r[1], RDiv(e.dx, RMax(sp(e.q[6]), sp(e.q[7]))), Tol, Zero))
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
