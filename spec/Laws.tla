-------------------------------- MODULE Laws --------------------------------
(* The conservation laws that the library solves, as formulas on real numbers: *)
(* states, fluxes, equations of state, wave speeds, changes of variables and    *)
(* symmetries.                                                                  *)
(*                                                                              *)
(* A law is a record with the field `law`:                                      *)
(*   "gas", "mix"  Euler equations of a perfect gas in n dimensions, with ns    *)
(*                 species and np passive scalars: gamma, rspec, msq            *)
(*   "swe"         shallow water equations with gravity g                       *)
(*   "adv"         linear advection with velocity vel                           *)
(*   "bur"         Burgers' equation                                            *)
(* A state is the sequence of its components in the order of the code:          *)
(*   gas: rho, momentum(n), rho E, rho Y(ns), rho Z(np); complete: and p, a     *)
(*   gas, primitive: rho, velocity(n), p, Y(ns), Z(np)                          *)
(*   swe: h, momentum(2);  adv: mass;  bur: u                                   *)
EXTENDS Num, FiniteSets

IsGas(L) == L.law \in {"gas", "mix"}
NC(L) == IF IsGas(L) THEN L.n + 2 + L.ns + L.np ELSE IF L.law = "swe" THEN 3 ELSE 1
NQ(L) == IF IsGas(L) THEN NC(L) + 2 ELSE NC(L)
Cons(L, q) == SubSeq(q, 1, NC(L))
Pr(L, q) == q[NC(L) + 1]          \* pressure and speed of sound of a complete state
Snd(L, q) == q[NC(L) + 2]
Mom(L, q) == SubSeq(q, 2, 1 + L.n)
Vel(L, q) == [d \in 1..L.n |-> q[1 + d] (/) q[1]]
AbsV(v) == [i \in DOMAIN v |-> RAbs(v[i])]
MapV(v, f(_)) == [i \in DOMAIN v |-> f(v[i])]
Norm2(v) == RSum([i \in DOMAIN v |-> RSq(v[i])])
Dot(v, w) == RSum([i \in DOMAIN v |-> v[i] (.) w[i]])
Max2(v) == LET RECURSIVE go(_)
               go(i) == IF i = 1 THEN RAbs(v[1]) ELSE RMax(RAbs(v[i]), go(i - 1)) IN go(Len(v))

\* the components of q are those of r up to rounding, relative to the scales s
Close(q, r, s, tol) == Len(q) = Len(r) /\ \A i \in DOMAIN q : RClose(q[i], r[i], tol, s[i])
\* no component is "nan" or infinite
Finite(q) == \A i \in DOMAIN q : RFinite(q[i])

-----------------------------------------------------------------------------
\* Thermodynamics
Kin(rho, m) == Norm2(m) (/) RMul(2, rho)
PressureOf(L, c) == (c[L.n + 2] (-) RMul(L.msq, Kin(c[1], Mom(L, c)))) (.) RSub(L.gamma, 1)
Snd2(L, rho, p) == RDiv(L.gamma (.) p, rho)
TemperatureOf(L, rho, p) == RDiv(p, rho (.) L.rspec)
EnergyOf(L, rho, m, p) == RMul(L.msq, Kin(rho, m)) (+) RDiv(p, RSub(L.gamma, 1))
Admissible(L, c) == RLess("0", c[1]) /\ RLess("0", PressureOf(L, c))

\* a complete state from the conservative and from the primitive variables
FromCons(L, c) == LET p == PressureOf(L, c) IN c \o <<p, RSqrt(Snd2(L, c[1], p))>>
PrimMom(L, w) == [d \in 1..L.n |-> w[1] (.) w[1 + d]]
FromPrim(L, w) ==
  LET m == PrimMom(L, w) p == w[L.n + 2] IN
  <<w[1]>> \o m \o <<EnergyOf(L, w[1], m, p)>>
  \o [i \in 1..(L.ns + L.np) |-> w[1] (.) w[L.n + 2 + i]] \o <<p, RSqrt(Snd2(L, w[1], p))>>
ToPrim(L, q) == <<q[1]>> \o Vel(L, q) \o <<Pr(L, q)>>
                \o [i \in 1..(L.ns + L.np) |-> q[L.n + 2 + i] (/) q[1]]
ConsScale(L, c) == LET e == RDiv(c[L.n + 2], 1) IN AbsV(c) \o <<e, "0">>

-----------------------------------------------------------------------------
\* Fluxes.  (Evaluated for absolute values, they are the sums of the absolute
\* values of their terms and serve as scales for rounding errors.)
Flux(L, q, d) ==
  CASE IsGas(L) ->
       LET u == q[1 + d] (/) q[1] IN
       [c \in 1..NC(L) |->
          IF c = 1 THEN q[1 + d]
          ELSE IF c = 1 + d THEN (u (.) q[c]) (+) RDiv(Pr(L, q), L.msq)
          ELSE IF c = L.n + 2 THEN u (.) (q[c] (+) Pr(L, q))
          ELSE u (.) q[c]]
    [] L.law = "swe" ->
       LET u == q[1 + d] (/) q[1] IN
       [c \in 1..3 |->
          IF c = 1 THEN q[1 + d]
          ELSE IF c = 1 + d THEN (u (.) q[c]) (+) RDiv(L.g (.) RSq(q[1]), 2)
          ELSE u (.) q[c]]
    [] L.law = "adv" -> <<L.vel[d] (.) q[1]>>
    [] L.law = "bur" -> <<RDiv(RSq(q[1]), 2)>>
AbsLaw(L) == IF L.law = "adv" THEN [L EXCEPT !.vel = AbsV(L.vel)] ELSE L
FluxScale(L, q, d) == Flux(AbsLaw(L), AbsV(q), d)

\* The speeds of the fastest waves to both sides in direction d.
WaveSpeeds(L, q, d) ==
  CASE IsGas(L) -> LET u == q[1 + d] (/) q[1] IN <<u (-) Snd(L, q), u (+) Snd(L, q)>>
    [] L.law = "swe" -> LET u == q[1 + d] (/) q[1] a == RSqrt(L.g (.) q[1]) IN <<u (-) a, u (+) a>>
    [] L.law = "adv" -> <<L.vel[d], L.vel[d]>>
    [] L.law = "bur" -> <<q[1], q[1]>>

-----------------------------------------------------------------------------
\* Symmetries: linear maps of the vector (momentum or velocity) part of a state
Vector(q, n) == SubSeq(q, 2, 1 + n)
WithVector(q, n, v) == [i \in DOMAIN q |-> IF i \in 2..(1 + n) THEN v[i - 1] ELSE q[i]]
\* reflection at the plane with the given normal (of any non-zero length: the unit one is meant)
Mirrored(v, normal) == LET s == Dot(v, normal) IN [i \in DOMAIN v |-> v[i] (-) RMul(2, s (.) normal[i])]
ReflectState(q, n, normal) == WithVector(q, n, Mirrored(Vector(q, n), normal))
\* rotation: rot is the sequence of the matrix' rows
Apply(rot, v) == [i \in DOMAIN rot |-> Dot(rot[i], v)]
RotateState(q, n, rot) == WithVector(q, n, Apply(rot, Vector(q, n)))
VectorScale(q, n) == LET m == Max2(Vector(q, n)) IN [i \in DOMAIN q |-> IF i \in 2..(1 + n) THEN RMul(4, m) ELSE q[i]]

-----------------------------------------------------------------------------
\* Kinetic states: <<rho, T, X(ns + 1), Z(np)>> (fractions by mass, as the code has them)
FromKinetic(L, k, u) ==
  LET rho == k[1] T == k[2]
      X == SubSeq(k, 3, 3 + L.ns) total == RSum(X)
      m == [d \in 1..L.n |-> rho (.) u[d]]
      p == rho (.) T IN
  <<rho>> \o m \o <<EnergyOf(L, rho, m, p)>>
  \o [i \in 1..L.ns |-> RDiv(rho (.) X[i], total)]
  \o [i \in 1..L.np |-> rho (.) k[3 + L.ns + i]] \o <<p, RSqrt(RMul(L.gamma, T))>>
ToKinetic(L, q) ==
  LET Y == [i \in 1..L.ns |-> q[L.n + 2 + i] (/) q[1]] IN
  <<q[1], Pr(L, q) (/) q[1]>> \o Y \o <<RSub(1, RSum(Y))>>
  \o [i \in 1..L.np |-> q[L.n + 2 + L.ns + i] (/) q[1]]

\* Another velocity at the same thermodynamic state.
WithVelocity(L, q, v) ==
  LET m == [d \in 1..L.n |-> q[1] (.) v[d]] IN
  [i \in DOMAIN q |->
     IF i \in 2..(1 + L.n) THEN m[i - 1]
     ELSE IF i = L.n + 2 THEN (q[i] (-) Kin(q[1], Mom(L, q))) (+) Kin(q[1], m) ELSE q[i]]

\* Isentropic change to the pressure p: entropy p / rho^gamma, the mass
\* fractions and the total enthalpy stay; the flow is along the first axis.
SignedSqrt(x) == IF RLess(x, "0") THEN RNeg(RSqrt(RNeg(x))) ELSE RSqrt(x)
IsentropicDensity(L, q, p) == q[1] (.) RPow(p (/) Pr(L, q), RDiv(1, L.gamma))
CpOverR(L) == RDiv(L.gamma, RSub(L.gamma, 1))
AlongX(L, u) == [d \in 1..L.n |-> IF d = 1 THEN u ELSE "0"]
Mixture(L, q, rho) == [i \in 1..(L.ns + L.np) |-> RDiv(q[L.n + 2 + i] (.) rho, q[1])]
AtPressure(L, q, rho, p, u) ==
  LET m == AlongX(L, rho (.) u) IN
  <<rho>> \o m \o <<EnergyOf(L, rho, m, p)>> \o Mixture(L, q, rho) \o <<p, RSqrt(Snd2(L, rho, p))>>
IsentropicU2(L, q, p) ==
  LET rho == IsentropicDensity(L, q, p) IN
  RMul(RMul(2, CpOverR(L)), (Pr(L, q) (/) q[1]) (-) (p (/) rho)) (+) Norm2(Vel(L, q))
Isentropic(L, q, p) ==
  AtPressure(L, q, IsentropicDensity(L, q, p), p, SignedSqrt(IsentropicU2(L, q, p)))
\* Expansion to the pressure p, in which the share eff of the enthalpy becomes
\* kinetic energy in addition to what there is.
ExpansionDrop(L, q, p) == RMul(CpOverR(L), (Pr(L, q) (/) q[1]) (-) (p (/) IsentropicDensity(L, q, p)))
ExpansionU(L, q, p, eff) ==
  LET h == ExpansionDrop(L, q, p)
      s == RSqrt(RMul(RMul(2, eff), RAbs(h)) (+) Norm2(Vel(L, q))) IN
  IF RLess(h, "0") THEN RNeg(s) ELSE s
Expansion(L, q, p, eff) ==
  AtPressure(L, q, IsentropicDensity(L, q, p), p, ExpansionU(L, q, p, eff))
\* velocities that follow from differences of nearly equal enthalpies are compared by their squares' scale
GasScale(L, q, p) ==
  LET rho == IsentropicDensity(L, q, p)
      w == RSqrt(Norm2(Vel(L, q)) (+) RMul(RMul(4, CpOverR(L)), RMax(Pr(L, q) (/) q[1], p (/) rho))) IN
  <<rho>> \o [d \in 1..L.n |-> rho (.) w]
=============================================================================
