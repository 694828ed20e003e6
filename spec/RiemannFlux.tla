----------------------------- MODULE RiemannFlux -----------------------------
(* Approximate Riemann solvers between two states l and r along axis d: the  *)
(* solver of Harten, Lax and van Leer with given wave speeds, Einfeldt's      *)
(* choice of the speeds, and Einfeldt's extension HLLEM that restores the     *)
(* contact and shear waves, optionally with Larrouturou's upwinding of all    *)
(* quantities that the flow merely carries.                                   *)
EXTENDS Laws

Zero == "0"
Neg0(x) == RMin(x, Zero)
Pos0(x) == RMax(x, Zero)

-----------------------------------------------------------------------------
\* HLL: l for x < s1 t, r for x > s2 t, and between them the average of the
\* exact solution.
HllState(L, l, r, d, s) ==
  LET fl == Flux(L, l, d) fr == Flux(L, r, d) IN
  [c \in 1..NC(L) |-> RDiv(((s[2] (.) r[c]) (-) (s[1] (.) l[c])) (+) (fl[c] (-) fr[c]), s[2] (-) s[1])]
HllFlux(L, l, r, d, s) ==
  LET fl == Flux(L, l, d) fr == Flux(L, r, d) b1 == Neg0(s[1]) b2 == Pos0(s[2]) IN
  [c \in 1..NC(L) |-> RDiv(((b2 (.) fl[c]) (-) (b1 (.) fr[c])) (+) RMul(b1 (.) b2, r[c] (-) l[c]), b2 (-) b1)]
HllPressure(L, l, r, s) ==
  LET b1 == Neg0(s[1]) b2 == Pos0(s[2]) IN RDiv((b2 (.) Pr(L, l)) (-) (b1 (.) Pr(L, r)), b2 (-) b1)
\* sums of the absolute values of the terms
Fastest(s) == RMax(RAbs(s[1]), RAbs(s[2]))
HllScale(L, l, r, d, s) ==
  LET fl == FluxScale(L, l, d) fr == FluxScale(L, r, d) m == Fastest(s) IN
  [c \in 1..NC(L) |-> (fl[c] (+) fr[c]) (+) (m (.) (RAbs(l[c]) (+) RAbs(r[c])))]
HllStateScale(L, l, r, d, s) ==
  LET h == HllScale(L, l, r, d, s) IN [c \in 1..NC(L) |-> RDiv(h[c], s[2] (-) s[1])]

-----------------------------------------------------------------------------
\* Averages of Roe
RoeAvg(l, r, x, y) ==
  LET a == RSqrt(l[1]) b == RSqrt(r[1]) IN RDiv((a (.) x) (+) (b (.) y), a (+) b)
Enthalpy(L, q) == RDiv(q[L.n + 2] (+) Pr(L, q), q[1])
RoeVel(L, l, r) == [i \in 1..L.n |-> RoeAvg(l, r, Vel(L, l)[i], Vel(L, r)[i])]
RoeH(L, l, r) == RoeAvg(l, r, Enthalpy(L, l), Enthalpy(L, r))
\* the square of the sound speed that belongs to enthalpy H and the square k of a velocity
RoeA2(L, H, k) == RMul(RSub(L.gamma, 1), H (-) RDiv(RMul(L.msq, k), 2))

\* Einfeldt's speeds bound those of both states and of the linearized problem.
\* (With more than one dimension the linearized sound speed may be taken with
\* all or with the normal part of the velocity: k is the square that counts.)
EinfeldtWith(L, l, r, d, k) ==
  LET ul == Vel(L, l)[d] ur == Vel(L, r)[d] u == RoeVel(L, l, r)[d]
      a == RSqrt(RoeA2(L, RoeH(L, l, r), k)) IN
  <<RMin(ul (-) Snd(L, l), u (-) a), RMax(ur (+) Snd(L, r), u (+) a)>>
EinfeldtInner(L, l, r, d) == EinfeldtWith(L, l, r, d, Norm2(RoeVel(L, l, r)))
EinfeldtOuter(L, l, r, d) == EinfeldtWith(L, l, r, d, RSq(RoeVel(L, l, r)[d]))

\* HLLEM takes the larger of both sound speeds to both sides.
HllemSpeeds(L, l, r, d) ==
  LET m == RDiv(1, RSqrt(L.msq)) ul == Vel(L, l)[d] ur == Vel(L, r)[d] u == RoeVel(L, l, r)
      a == RSqrt(RoeA2(L, RoeH(L, l, r), Norm2(u))) (.) m
      b == RMax(Snd(L, l), Snd(L, r)) (.) m IN
  <<RMin(ul (-) b, u[d] (-) a), RMax(ur (+) b, u[d] (+) a)>>

\* Strengths and vectors of the contact, shear and species waves of the
\* linearized problem: their sum, and the sum of the absolute terms.
InnerWaves(L, l, r, abs) ==
  LET u == RoeVel(L, l, r) H == RoeH(L, l, r) k == Norm2(u)
      g == RDiv(RSub(L.gamma, 1), RoeA2(L, H, k))
      A(x) == IF abs THEN RAbs(x) ELSE x
      P(x, y) == A(x) (+) A(y)
      D(i) == IF abs THEN RAbs(l[i]) (+) RAbs(r[i]) ELSE r[i] (-) l[i]
      M(x, y) == IF abs THEN RAbs(x) (+) RAbs(y) ELSE x (-) y
      a2 == RMul(g, M(RMul(M(H, RMul(L.msq, k)), D(1)) (+) RMul(L.msq, RSum([i \in 1..L.n |-> A(u[i]) (.) D(1 + i)])), D(L.n + 2)))
      Sh(i) == M(D(1 + i), A(u[i]) (.) D(1))                       \* change of the tangential momentum at constant density
      Y(i) == RoeAvg(l, r, l[i] (/) l[1], r[i] (/) r[1])
      Yabs(i) == RoeAvg(l, r, RAbs(l[i] (/) l[1]), RAbs(r[i] (/) r[1]))
      X(i) == IF abs THEN Yabs(i) ELSE Y(i) IN
  [d \in 1..L.n |->
    [c \in 1..NC(L) |->
       IF c = 1 THEN a2
       ELSE IF c = 1 + d THEN a2 (.) A(u[d])
       ELSE IF c <= 1 + L.n THEN (a2 (.) A(u[c - 1])) (+) Sh(c - 1)
       ELSE IF c = L.n + 2 THEN RMul(a2, RDiv(RMul(L.msq, k), 2))
                               (+) RMul(L.msq, RSum([i \in 1..L.n |-> IF i = d THEN Zero ELSE Sh(i) (.) A(u[i])]))
       ELSE (a2 (.) X(c)) (+) M(D(c), X(c) (.) D(1))]]
AntiDiffusion(L, l, r, s) ==
  LET u == RDiv(s[1] (+) s[2], 2) a == RSqrt(RoeA2(L, RoeH(L, l, r), Norm2(RoeVel(L, l, r)))) IN
  RDiv(a, a (+) RAbs(u))

\* Fluxes and states of HLLEM with the inner waves
PlainFlux(L, l, r, d, s) ==
  LET h == HllFlux(L, l, r, d, s) w == InnerWaves(L, l, r, FALSE)[d]
      b == RDiv(RMul(Neg0(s[1]), Pos0(s[2])), Pos0(s[2]) (-) Neg0(s[1])) (.) AntiDiffusion(L, l, r, s) IN
  [c \in 1..NC(L) |-> h[c] (-) (b (.) w[c])]
PlainState(L, l, r, d, s) ==
  LET h == HllState(L, l, r, d, s) w == InnerWaves(L, l, r, FALSE)[d]
      b == RDiv(s[1] (+) s[2], 2) (.) AntiDiffusion(L, l, r, s) IN
  [c \in 1..NC(L) |-> h[c] (-) (b (.) w[c])]

\* Larrouturou: the tangential motion and all scalars are carried by the mass
\* flux: they are taken out of the states and are upwinded with the mass.
Tangential(L, q, d) == [i \in 1..L.n |-> IF i = d THEN Zero ELSE q[1 + i]]
TangentialEnergy(L, q, d) == RMul(L.msq, Kin(q[1], Tangential(L, q, d)))
Stripped(L, q, d) ==
  [i \in DOMAIN q |-> IF i \in 2..(1 + L.n) /\ i # 1 + d THEN Zero
                      ELSE IF i = L.n + 2 THEN q[i] (-) TangentialEnergy(L, q, d) ELSE q[i]]
\* what a unit of mass of state q carries
Carried(L, q, d) ==
  [c \in 1..NC(L) |-> IF c \in 2..(1 + L.n) THEN RDiv(Tangential(L, q, d)[c - 1], q[1])
                      ELSE IF c = L.n + 2 THEN RDiv(TangentialEnergy(L, q, d), q[1])
                      ELSE IF c > L.n + 2 THEN RDiv(q[c], q[1]) ELSE Zero]
\* mass m with what it carries from l (up) or r
WithCarried(L, plain, l, r, d, up) ==
  LET y == Carried(L, IF up THEN l ELSE r, d) IN
  [c \in 1..NC(L) |-> IF c = 1 \/ c = 1 + d THEN plain[c]
                      ELSE IF c = L.n + 2 THEN plain[c] (+) (plain[1] (.) y[c])
                      ELSE plain[1] (.) y[c]]
HllemFlux(L, lar, l, r, d) ==
  IF lar
  THEN LET a == Stripped(L, l, d) b == Stripped(L, r, d)
           p == PlainFlux(L, a, b, d, HllemSpeeds(L, a, b, d)) IN
       WithCarried(L, p, l, r, d, RLess(Zero, p[1]))
  ELSE PlainFlux(L, l, r, d, HllemSpeeds(L, l, r, d))
HllemUsedSpeeds(L, lar, l, r, d) ==
  IF lar THEN HllemSpeeds(L, Stripped(L, l, d), Stripped(L, r, d), d) ELSE HllemSpeeds(L, l, r, d)
\* the intermediate state, with the mass coming from l (up) or r
HllemState(L, lar, l, r, d, up) ==
  IF lar
  THEN LET a == Stripped(L, l, d) b == Stripped(L, r, d) IN
       WithCarried(L, PlainState(L, a, b, d, HllemSpeeds(L, a, b, d)), l, r, d, up)
  ELSE PlainState(L, l, r, d, HllemSpeeds(L, l, r, d))
HllemScale(L, l, r, d) ==
  LET s == HllemSpeeds(L, l, r, d) h == HllScale(L, l, r, d, s) w == InnerWaves(L, l, r, TRUE)[d] m == Fastest(s) IN
  [c \in 1..NC(L) |-> h[c] (+) (m (.) w[c])]
HllemStateScale(L, l, r, d) ==
  LET s == HllemSpeeds(L, l, r, d) h == HllStateScale(L, l, r, d, s) w == InnerWaves(L, l, r, TRUE)[d] IN
  [c \in 1..NC(L) |-> RMul(2, h[c] (+) w[c])]

-----------------------------------------------------------------------------
\* Speeds for the shallow water equations; the state of rest is always inside.
ShallowSpeeds(L, l, r, d) ==
  LET a == WaveSpeeds(L, l, d) b == WaveSpeeds(L, r, d) IN
  <<RMin(Zero, RMin(a[1], b[1])), RMax(Zero, RMax(a[2], b[2]))>>
=============================================================================
