-------------------------- MODULE ExactRiemannTrace --------------------------
(* What the exact Riemann solvers and Godunov's method return, against module  *)
(* ExactRiemann.  The middle state is found iteratively: it is judged by what  *)
(* it leaves of the equation for it, and everything else is judged with the    *)
(* middle state that the code has found.                                       *)
EXTENDS ExactRiemann, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
L == Traces[tid].cfg
Tol == "1e-10"
Gap0 == "2e-7"   \* Newton's iteration stops at 1e-7
cl(name, ok) == IF ok THEN {} ELSE {<<"C20", name>>}
Zeros(q) == \A i \in DOMAIN q : REq(q[i], "0")
Fastest(s) == RMax(RAbs(s[1]), RAbs(s[2]))
MiddleOk(e) ==
  LET z == e.r[1] u == e.r[2] IN
  /\ RLess(Zero, z)
  /\ RWithin(Gap(L, e.q, e.q2, e.d, z), Zero, Gap0)
  /\ RWithin(u, Un(L, e.q, e.d) (-) Curve(L, e.q, z), Gap0)
  /\ RWithin(u, Un(L, e.q2, e.d) (+) Curve(L, e.q2, z), Gap0)
\* the conserved variables agree, and the complete ones belong to them
Scale(q) == IF IsGas(L) THEN LET v == RAbs(q[1] (.) Snd(L, q)) IN [i \in DOMAIN q |-> IF i \in 2..(1 + L.n) THEN v ELSE RAbs(q[i])]
            ELSE <<q[1], RMul(q[1], Snd0(L, q)), RMul(q[1], Snd0(L, q))>>
StateIs(q, r) == Len(q) = Len(r) /\ LET s == Scale(q) IN \A i \in DOMAIN q : RClose(r[i], q[i], Tol, s[i])
\* the left half; near the edges of the wave the states of both sides are right
LeftOk(l0, d, z, u, xi, r, t) ==
  LET e == Edges(L, l0, d, z, u) IN
  \/ RLeq(xi, e[1] (+) t) /\ StateIs(l0, r)
  \/ RLeq(e[2] (-) t, xi) /\ StateIs(Star(L, l0, d, z, u), r)
  \/ ~IsShock(L, l0, z) /\ RLeq(e[1] (-) t, xi) /\ RLeq(xi, e[2] (+) t) /\ StateIs(Fan(L, l0, d, xi), r)
SolutionOk(e) ==
  LET z == e.m[1] u == e.m[2] t == RMul("1e-9", RAbs(u) (+) (Snd0(L, e.q) (+) Snd0(L, e.q2))) IN
  \/ RLeq(e.xi, u (+) t) /\ LeftOk(e.q, e.d, z, u, e.xi, e.r, t)
  \/ RLeq(u (-) t, e.xi) /\ LeftOk(Mir(L, e.q2, e.d), e.d, z, RNeg(u), RNeg(e.xi), Mir(L, e.r, e.d), t)
Speed(q, q2, d, m) ==
  IF L.law = "bur" THEN BurgersSpeed(q[1], q2[1])
  ELSE IF L.law = "adv" THEN RAbs(L.vel[d])
  ELSE Fastest(FastWaves(L, q, q2, d, m[1], m[2]))
Broken(e) ==
  CASE e.a = "middle" -> cl("both waves do not lead to the same middle state", MiddleOk(e))
    [] e.a = "signals" ->
       cl("the speeds of the fastest waves",
          IF L.law \in {"bur", "adv"} THEN Len(e.r) = 1 /\ RClose(RAbs(e.r[1]), Speed(e.q, e.q2, e.d, <<>>), Tol, RAbs(e.q[1]) (+) RAbs(e.q2[1]))
          ELSE LET s == FastWaves(L, e.q, e.q2, e.d, e.m[1], e.m[2]) t == Fastest(s) IN
               Close(e.r, s, <<t, t>>, "1e-6"))
    [] e.a = "solution" ->
       IF ~e.on THEN cl("a closed face has a solution", Zeros(e.r)) ELSE
       cl("the state at the face is not the solution",
          CASE L.law = "bur" -> \/ REq(e.r[1], BurgersAt0(e.q[1], e.q2[1]))
                               \/ /\ RLess(e.q2[1], e.q[1])   \* a standing shock
                                  /\ RWithin(e.q[1] (+) e.q2[1], Zero, RMul(Tol, RAbs(e.q[1])))
                                  /\ REq(e.r[1], e.q[1]) \/ REq(e.r[1], e.q2[1])
            [] L.law = "adv" -> REq(e.r[1], AdvectionAt0(L, e.q[1], e.q2[1], e.d)) \/ REq(L.vel[e.d], Zero)
            [] OTHER -> SolutionOk(e))
    [] e.a = "godunov" ->
       IF ~e.on THEN cl("flux through a closed face", Zeros(e.r)) ELSE
       cl("Godunov's flux is not the flux of the solution", Close(e.r, Flux(L, e.q, e.d), FluxScale(L, e.q, e.d), Tol))
    [] e.a = "dt" ->
       IF ~e.on THEN cl("a closed face limits the step", RLess("1e300", e.r[1]) \/ e.r[1] = "inf") ELSE
       LET s == Speed(e.q, e.q2, e.d, e.m) IN
       cl("the stable step", IF REq(s, Zero) THEN e.r[1] = "inf" ELSE RClose(e.r[1], RDiv(e.dx, s), "1e-6", "0"))
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
