---------------------------- MODULE ExactRiemann ----------------------------
(* The exact solution of the Riemann problem: two states l and r meet at       *)
(* x = 0; what is found at x / t = xi later on.                                *)
(*                                                                             *)
(* For gases and for shallow water the solution has two waves, shocks or       *)
(* rarefactions, around a contact in whose neighbourhood velocity and z        *)
(* (pressure or height) are constant.  Only the wave to the left is described; *)
(* the one to the right is its mirror image.                                   *)
EXTENDS Laws

Zero == "0"
Z(L, q) == IF IsGas(L) THEN Pr(L, q) ELSE q[1]
Un(L, q, d) == q[1 + d] (/) q[1]                         \* normal velocity
Snd0(L, q) == IF IsGas(L) THEN Snd(L, q) ELSE RSqrt(L.g (.) q[1])
Gp(L) == RAdd(L.gamma, 1)
Gm(L) == RSub(L.gamma, 1)
Unit(d, n) == [i \in 1..n |-> IF i = d THEN "1" ELSE "0"]
Mir(L, q, d) == ReflectState(q, L.n, Unit(d, L.n))

\* how much slower the flow is behind a wave that raises z of state q to z
Curve(L, q, z) ==
  IF IsGas(L)
  THEN IF RLess(Pr(L, q), z)
       THEN (z (-) Pr(L, q)) (.) RSqrt(RDiv(RDiv(2, Gp(L) (.) q[1]), z (+) (RDiv(Gm(L), Gp(L)) (.) Pr(L, q))))
       ELSE RMul(RDiv(RMul(2, Snd(L, q)), Gm(L)), RSub(RPow(z (/) Pr(L, q), RDiv(Gm(L), RMul(2, L.gamma))), 1))
  ELSE IF RLess(q[1], z)
       THEN (z (-) q[1]) (.) RSqrt(RDiv(L.g, 2) (.) (RDiv(1, z) (+) RDiv(1, q[1])))
       ELSE RMul(2, RSqrt(L.g (.) z) (-) RSqrt(L.g (.) q[1]))
\* density (height) behind the wave
Behind(L, q, z) ==
  IF ~IsGas(L) THEN z
  ELSE LET p == z (/) Pr(L, q) k == RDiv(Gm(L), Gp(L)) IN
       IF RLess(Pr(L, q), z) THEN RDiv(q[1] (.) (p (+) k), RAdd(k (.) p, 1))
       ELSE q[1] (.) RPow(p, RDiv(1, L.gamma))
\* a state with density rho, z and normal velocity u that carries what q does
Carrying(L, q, d, rho, z, u) ==
  LET m == [i \in 1..L.n |-> IF i = d THEN rho (.) u ELSE rho (.) (q[1 + i] (/) q[1])] IN
  IF IsGas(L) THEN <<rho>> \o m \o <<EnergyOf(L, rho, m, z)>> \o <<z, RSqrt(Snd2(L, rho, z))>>
  ELSE <<rho>> \o m
Star(L, q, d, z, u) == Carrying(L, q, d, Behind(L, q, z), z, u)
\* the speeds between which the wave extends; equal for a shock
IsShock(L, q, z) == RLess(Z(L, q), z)
ShockSpeed(L, q, d, z) ==
  IF IsGas(L) THEN Un(L, q, d) (-) RMul(Snd(L, q), RSqrt(RDiv((Gp(L) (.) (z (/) Pr(L, q))) (+) Gm(L), RMul(2, L.gamma))))
  ELSE Un(L, q, d) (-) RSqrt(RDiv(RMul(L.g (.) z, z (+) q[1]), RMul(2, q[1])))
SoundBehind(L, q, z) ==
  IF IsGas(L) THEN Snd(L, q) (.) RPow(z (/) Pr(L, q), RDiv(Gm(L), RMul(2, L.gamma))) ELSE RSqrt(L.g (.) z)
Edges(L, q, d, z, u) ==
  IF IsShock(L, q, z) THEN LET s == ShockSpeed(L, q, d, z) IN <<s, s>>
  ELSE <<Un(L, q, d) (-) Snd0(L, q), u (-) SoundBehind(L, q, z)>>
\* inside a rarefaction
Fan(L, q, d, xi) ==
  LET w == Un(L, q, d) (-) xi a == Snd0(L, q) IN
  IF IsGas(L)
  THEN LET c == RDiv(2, Gp(L)) (+) RDiv(Gm(L) (.) w, Gp(L) (.) a) IN
       Carrying(L, q, d, q[1] (.) RPow(c, RDiv(2, Gm(L))), Pr(L, q) (.) RPow(c, RDiv(RMul(2, L.gamma), Gm(L))),
                RMul(RDiv(2, Gp(L)), (a (+) RMul(RDiv(Gm(L), 2), Un(L, q, d))) (+) xi))
  ELSE LET c == RDiv(RMul(2, a) (+) w, 3) IN   \* sound speed
       Carrying(L, q, d, RSq(c) (/) L.g, RSq(c) (/) L.g, xi (+) c)
\* the left half of the solution, up to the contact
LeftAt(L, q, d, z, u, xi) ==
  LET e == Edges(L, q, d, z, u) IN
  IF RLeq(xi, e[1]) THEN q ELSE IF RLess(xi, e[2]) THEN Fan(L, q, d, xi) ELSE Star(L, q, d, z, u)
SolutionAt(L, l, r, d, z, u, xi) ==
  IF RLeq(xi, u) THEN LeftAt(L, l, d, z, u, xi)
  ELSE Mir(L, LeftAt(L, Mir(L, r, d), d, z, RNeg(u), RNeg(xi)), d)
\* z and u of the middle are those that both waves lead to
Gap(L, l, r, d, z) == (Un(L, l, d) (-) Curve(L, l, z)) (-) (Un(L, r, d) (+) Curve(L, r, z))
\* no vacuum appears
Connected(L, l, r, d) ==
  LET k == IF IsGas(L) THEN RDiv(2, Gm(L)) ELSE "2" IN
  RLess(Un(L, r, d) (-) Un(L, l, d), RMul(k, Snd0(L, l) (+) Snd0(L, r)))
FastWaves(L, l, r, d, z, u) ==
  <<Edges(L, l, d, z, u)[1], RNeg(Edges(L, Mir(L, r, d), d, z, RNeg(u))[1])>>
\* the root of Gap by n bisections in the ratio to lo
RECURSIVE Bisect(_, _, _, _, _, _, _)
Bisect(L, l, r, d, lo, hi, n) ==
  LET m == RSqrt(lo (.) hi) IN
  IF n = 0 THEN m
  ELSE IF RLess(Zero, Gap(L, l, r, d, m)) THEN Bisect(L, l, r, d, m, hi, n - 1) ELSE Bisect(L, l, r, d, lo, m, n - 1)
MiddleZ(L, l, r, d) == Bisect(L, l, r, d, RMin(Z(L, l), Z(L, r)) (/) "1e12", RMax(Z(L, l), Z(L, r)) (.) "1e4", 100)
MiddleU(L, l, r, d, z) == RDiv((Un(L, l, d) (-) Curve(L, l, z)) (+) (Un(L, r, d) (+) Curve(L, r, z)), 2)

-----------------------------------------------------------------------------
\* Scalar laws
BurgersAt0(a, b) ==
  IF RLess(b, a) THEN (IF RLess(a (+) b, Zero) THEN b ELSE a)
  ELSE IF RLess(Zero, a) THEN a ELSE IF RLess(b, Zero) THEN b ELSE Zero
BurgersSpeed(a, b) == IF RLess(b, a) THEN RAbs(RDiv(a (+) b, 2)) ELSE RMax(RAbs(a), RAbs(b))
AdvectionAt0(L, a, b, d) == IF RLess(Zero, L.vel[d]) THEN a ELSE b
=============================================================================
