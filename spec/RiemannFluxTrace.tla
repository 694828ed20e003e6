--------------------------- MODULE RiemannFluxTrace ---------------------------
(* What the approximate Riemann solvers of the code return, against module     *)
(* RiemannFlux.  Events: q, q2 left and right state, d direction, r result,    *)
(* s signal speeds, on: whether a mask leaves the face open.                   *)
EXTENDS RiemannFlux, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
L == Traces[tid].cfg
Tol == "1e-11"
cl(name, ok) == IF ok THEN {} ELSE {<<"C19", name>>}
Zeros(q) == \A i \in DOMAIN q : REq(q[i], "0")
Between(x, a, b, s) == RLeq(RMin(a, b) (-) RMul(Tol, s), x) /\ RLeq(x, RMax(a, b) (+) RMul(Tol, s))
SpeedsOk(e) ==
  IF L.law = "swe" THEN LET s == ShallowSpeeds(L, e.q, e.q2, e.d) IN Close(e.r, s, <<Fastest(s), Fastest(s)>>, Tol)
  ELSE LET i == EinfeldtInner(L, e.q, e.q2, e.d) o == EinfeldtOuter(L, e.q, e.q2, e.d) m == Fastest(o) IN
       Between(e.r[1], i[1], o[1], m) /\ Between(e.r[2], i[2], o[2], m)
\* a complete state r whose conserved variables are c up to rounding
StateIs(c, scale, r) ==
  /\ Len(r) = NQ(L)
  /\ \A i \in DOMAIN c : RWithin(r[i], c[i], RMul(Tol, RMax(scale[i], RMax(RAbs(r[i]), RAbs(c[i])))))
  /\ IsGas(L) =>
       LET p == PressureOf(L, Cons(L, r)) IN
       /\ RClose(Pr(L, r), p, Tol, RMul(L.gamma, r[L.n + 2]))
       /\ RLess("0", Pr(L, r)) => RClose(RSq(Snd(L, r)), Snd2(L, r[1], Pr(L, r)), Tol, "0") /\ RLess("0", Snd(L, r))
SameState(q, r) == \* the conserved part unchanged, the rest completed
  StateIs(Cons(L, q), AbsV(Cons(L, q)), r)
\* the solution of a Riemann problem: left, right or inner state; near the
\* boundaries of the cases both are right
Picked(e, s, inner, scale) ==
  LET t == RMul(Tol, Fastest(s)) IN
  \/ RLess(RNeg(t), s[1]) /\ SameState(e.q, e.r)
  \/ RLess(s[2], t) /\ SameState(e.q2, e.r)
  \/ RLeq(s[1], t) /\ RLeq(RNeg(t), s[2]) /\ \E c \in inner : StateIs(c, scale, e.r)

Broken(e) ==
  CASE e.a = "signals" -> IF e.on THEN cl("wave speeds", SpeedsOk(e)) ELSE {}
    [] e.a = "hll" ->
       IF ~e.on THEN {} ELSE
       LET f == HllFlux(L, e.q, e.q2, e.d, e.s) sc == HllScale(L, e.q, e.q2, e.d, e.s) IN
       cl("the flux is not the one of the method", Close(e.r, f, sc, Tol))
       \cup (IF e.p = <<>> THEN {} ELSE
             cl("the pressure at the face", RClose(e.p[1], HllPressure(L, e.q, e.q2, e.s), Tol, Pr(L, e.q) (+) Pr(L, e.q2))))
    [] e.a = "hll state" ->
       cl("the solution of the Riemann problem",
          Picked(e, e.s, {HllState(L, e.q, e.q2, e.d, e.s)}, HllStateScale(L, e.q, e.q2, e.d, e.s)))
    [] e.a = "hllem" ->
       IF ~e.on THEN cl("flux through a closed face", Zeros(e.r)) ELSE
       cl("the flux is not the one of the method",
          Close(e.r, HllemFlux(L, e.lar, e.q, e.q2, e.d), HllemScale(L, e.q, e.q2, e.d), Tol))
       \cup (IF e.p = <<>> THEN {} ELSE
             cl("the pressure at the face",
                RClose(e.p[1], HllPressure(L, e.q, e.q2, HllemUsedSpeeds(L, e.lar, e.q, e.q2, e.d)), Tol, Pr(L, e.q) (+) Pr(L, e.q2))))
    [] e.a = "hllem state" ->
       LET s == HllemUsedSpeeds(L, e.lar, e.q, e.q2, e.d) m == s[1] (+) s[2] t == RMul(Tol, Fastest(s)) IN
       cl("the solution of the Riemann problem",
          Picked(e, s, {HllemState(L, e.lar, e.q, e.q2, e.d, up) :
                          up \in {u \in {TRUE, FALSE} : (u => RLess(RNeg(t), m)) /\ (~u => RLess(m, t))}},
                 HllemStateScale(L, e.q, e.q2, e.d)))
    [] e.a = "dt" ->
       \* a wave crosses at most one cell
       IF ~e.on THEN cl("a closed face limits the step", RLess("1e300", e.r[1]) \/ e.r[1] = "inf") ELSE
       cl("the stable step", RClose(e.r[1], RDiv(e.dx, Fastest(e.s)), Tol, "0"))
    [] e.a = "hllem dt" ->
       IF ~e.on THEN cl("a closed face limits the step", RLess("1e300", e.r[1]) \/ e.r[1] = "inf") ELSE
       cl("the stable step", RClose(e.r[1], RDiv(e.dx, Fastest(HllemSpeeds(L, e.q, e.q2, e.d))), Tol, "0"))
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
