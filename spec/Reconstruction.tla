---------------------------- MODULE Reconstruction ----------------------------
(* Second order reconstruction of a piecewise constant solution at the faces   *)
(* and half a time step ahead: limited slopes, slopes in conservative,         *)
(* primitive and characteristic variables, Hancock's predictor in each of      *)
(* them, and the fluxes of the methods built from them; and the third order    *)
(* Runge-Kutta method for the Navier-Stokes equations in one dimension.        *)
EXTENDS RiemannFlux

-----------------------------------------------------------------------------
\* Limited slopes from the differences x to the left and y to the right.
SameSign(x, y) == RLess(Zero, x (.) y)
CenteredSlope(x, y) == RDiv(x (+) y, 2)
MinModSlope(x, y) == IF SameSign(x, y) THEN (IF RLess(RAbs(x), RAbs(y)) THEN x ELSE y) ELSE Zero
VanLeerSlope(x, y) == IF SameSign(x, y) THEN RDiv(RMul(2, x (.) y), x (+) y) ELSE Zero
\* the harmonic mean of the smaller and the central difference
MeanSlope(x, y) ==
  LET m == MinModSlope(x, y) c == CenteredSlope(x, y) IN
  IF SameSign(x, y) THEN RDiv(RMul(2, m (.) c), m (+) c) ELSE Zero
Slope(k, x, y) ==
  CASE k = "minmod" -> MinModSlope(x, y)
    [] k = "vanleer" -> VanLeerSlope(x, y)
    [] k = "mean" -> MeanSlope(x, y)
    [] k = "central" -> IF SameSign(x, y) THEN CenteredSlope(x, y) ELSE Zero   \* central, but none at extrema
    [] k = "none" -> CenteredSlope(x, y)
    [] k = "zero" -> Zero
Slopes(k, x, y) == [i \in DOMAIN x |-> Slope(k, x[i], y[i])]
Diff(b, a, dx) == [i \in DOMAIN a |-> RDiv(b[i] (-) a[i], dx)]

-----------------------------------------------------------------------------
\* Characteristic variables at a state m for direction d: sound waves to the
\* left, the contact, shear waves (the other axes in cyclic order), the sound
\* wave to the right, mass fractions and scalars - of a change dw of the
\* primitive variables.
Ma(L) == RSqrt(L.msq)
Cyc(L, d, i) == ((d - 1 + i) % L.n) + 1
Impedance(L, m) == RMul(Ma(L), m[1] (.) Snd(L, m))
ToChar(L, m, d, dw, abs) ==
  LET dp == dw[L.n + 2] ku == Impedance(L, m) (.) dw[1 + d] o == RDiv(dp, RSq(Snd(L, m))) IN
  <<IF abs THEN dp (+) ku ELSE dp (-) ku>>
  \o [i \in 1..L.n |-> IF i = 1 THEN (IF abs THEN dw[1] (+) o ELSE dw[1] (-) o) ELSE dw[1 + Cyc(L, d, i - 1)]]
  \o <<dp (+) ku>>
  \o [i \in 1..(L.ns + L.np) |-> dw[L.n + 2 + i]]
FromChar(L, m, d, K) ==
  LET dp == RDiv(K[1] (+) K[L.n + 2], 2) IN
  <<RDiv(dp, RSq(Snd(L, m))) (+) K[2]>>
  \o [i \in 1..L.n |-> IF i = d THEN RDiv(K[L.n + 2] (-) K[1], RMul(2, Impedance(L, m)))
                       ELSE K[1 + (CHOOSE j \in 2..L.n : Cyc(L, d, j - 1) = i)]]
  \o <<dp>>
  \o [i \in 1..(L.ns + L.np) |-> K[L.n + 2 + i]]

\* The slope of the middle one of three states.
Gradient(L, k, m, q, dx, d) ==
  CASE m = "cons" -> Slopes(k, Diff(Cons(L, q[2]), Cons(L, q[1]), dx), Diff(Cons(L, q[3]), Cons(L, q[2]), dx))
    [] m = "prim" -> LET w == [i \in 1..3 |-> ToPrim(L, q[i])] IN Slopes(k, Diff(w[2], w[1], dx), Diff(w[3], w[2], dx))
    [] m = "char" -> LET w == [i \in 1..3 |-> ToPrim(L, q[i])] IN
         Slopes(k, ToChar(L, q[2], d, Diff(w[2], w[1], dx), FALSE), ToChar(L, q[2], d, Diff(w[3], w[2], dx), FALSE))
GradientScale(L, m, q, dx, d) ==
  LET two(x) == [i \in DOMAIN x[1] |-> RDiv((RAbs(x[1][i]) (+) RMul(2, RAbs(x[2][i]))) (+) RAbs(x[3][i]), dx)] IN
  CASE m = "cons" -> two([i \in 1..3 |-> Cons(L, q[i])])
    [] m = "prim" -> two([i \in 1..3 |-> ToPrim(L, q[i])])
    [] m = "char" -> ToChar(L, q[2], d, two([i \in 1..3 |-> ToPrim(L, q[i])]), TRUE)
NoGradient(L, m) == [i \in 1..NC(L) |-> Zero]

-----------------------------------------------------------------------------
\* The state at the upper or lower face of a cell after half the step dt, for a
\* state q with slope g per length in the variables m.
SignOf(up, x) == IF up THEN x ELSE RNeg(x)
\* the change of the primitive variables in time that belongs to their slope
PrimRate(L, q, g, d) ==
  LET u == Vel(L, q)[d] IN
  [i \in 1..NC(L) |->
     (u (.) g[i]) (+)
     (IF i = 1 THEN q[1] (.) g[1 + d]
      ELSE IF i = 1 + d THEN RDiv(RDiv(g[L.n + 2], q[1]), L.msq)
      ELSE IF i = L.n + 2 THEN RMul(L.gamma, Pr(L, q)) (.) g[1 + d] ELSE Zero)]
ConsEnds(L, q, g, dx) ==
  LET h == [i \in 1..NC(L) |-> RDiv(dx (.) g[i], 2)] IN
  <<[i \in 1..NC(L) |-> q[i] (-) h[i]], [i \in 1..NC(L) |-> q[i] (+) h[i]]>>
Complete(L, c) == IF IsGas(L) THEN FromCons(L, c) ELSE c
Rec(L, m, q, g, dt, dx, d, up) ==
  CASE m = "cons" ->
         LET e == ConsEnds(L, q, g, dx)
             f == [i \in 1..2 |-> Flux(L, Complete(L, e[i]), d)]
             b == IF up THEN e[2] ELSE e[1] IN
         Complete(L, [i \in 1..NC(L) |-> b[i] (+) RMul(RDiv(dt, RMul(2, dx)), f[1][i] (-) f[2][i])])
    [] m = "prim" ->
         LET w == ToPrim(L, q) r == PrimRate(L, q, g, d) IN
         FromPrim(L, [i \in 1..NC(L) |-> (w[i] (+) RDiv(SignOf(up, dx (.) g[i]), 2)) (-) RDiv(dt (.) r[i], 2)])
    [] m = "char" ->
         LET u == Vel(L, q)[d] c == RDiv(Snd(L, q), Ma(L)) w == ToPrim(L, q)
             speed(i) == IF i = 1 THEN u (-) c ELSE IF i = L.n + 2 THEN u (+) c ELSE u
             K == [i \in 1..NC(L) |-> RDiv(SignOf(up, dx (.) g[i]) (-) (dt (.) (speed(i) (.) g[i])), 2)]
             dw == FromChar(L, q, d, K) IN
         FromPrim(L, [i \in 1..NC(L) |-> w[i] (+) dw[i]])
\* the sums of the absolute values of the terms of the result's variables
\* (conservative ones for "cons", primitive ones else)
RecScale(L, m, q, g, dt, dx, d) ==
  LET aq == AbsV(q) ag == AbsV(g) IN
  CASE m = "cons" ->
         LET b == [i \in 1..NC(L) |-> aq[i] (+) (dx (.) ag[i])]
             e == ConsEnds(L, q, g, dx)
             f == [i \in 1..2 |-> FluxScale(L, Complete(L, e[i]), d)] IN
         [i \in 1..NC(L) |-> b[i] (+) RMul(RDiv(dt, dx), f[1][i] (+) f[2][i])]
    [] m = "prim" ->
         LET w == AbsV(ToPrim(L, q)) r == PrimRate(L, aq, ag, d) IN
         [i \in 1..NC(L) |-> (w[i] (+) (dx (.) ag[i])) (+) (dt (.) r[i])]
    [] m = "char" ->
         LET w == AbsV(ToPrim(L, q)) s == (dx (+) (dt (.) (RAbs(Vel(L, q)[d]) (+) RDiv(Snd(L, q), Ma(L)))))
             K == [i \in 1..NC(L) |-> s (.) ag[i]]
             dp == K[1] (+) K[L.n + 2] IN
         [i \in 1..NC(L) |->
            w[i] (+) (IF i = 1 THEN RDiv(dp, RSq(Snd(L, q))) (+) K[2]
                      ELSE IF i = 1 + d THEN RDiv(dp, Impedance(L, q))
                      ELSE IF i <= 1 + L.n THEN K[1 + (CHOOSE j \in 2..L.n : Cyc(L, d, j - 1) = i - 1)]
                      ELSE IF i = L.n + 2 THEN dp ELSE K[i])]
\* whether all states on the way are physical
RecAdmissible(L, m, q, g, dt, dx, d, up) ==
  LET r == Rec(L, m, q, g, dt, dx, d, up) e == ConsEnds(L, q, g, dx) IN
  IF ~IsGas(L) THEN (L.law = "swe" => RLess(Zero, r[1]) /\ RLess(Zero, e[1][1]) /\ RLess(Zero, e[2][1]))
  ELSE /\ m = "cons" => Admissible(L, e[1]) /\ Admissible(L, e[2])
       /\ RLess(Zero, r[1]) /\ RLess(Zero, Pr(L, r))

-----------------------------------------------------------------------------
\* The two states that a second order method gives to its Riemann solver, from
\* four states around the face; on[1], on[2] tell whether a slope to the left
\* and right of the face can be formed at all.
MusclStates(L, k, m, q, dt, dx, d, on) ==
  LET gl == IF on[1] THEN Gradient(L, k, m, SubSeq(q, 1, 3), dx, d) ELSE NoGradient(L, m)
      gr == IF on[2] THEN Gradient(L, k, m, SubSeq(q, 2, 4), dx, d) ELSE NoGradient(L, m) IN
  <<Rec(L, m, q[2], gl, dt, dx, d, TRUE), Rec(L, m, q[3], gr, dt, dx, d, FALSE)>>
MusclAdmissible(L, k, m, q, dt, dx, d, on) ==
  LET gl == IF on[1] THEN Gradient(L, k, m, SubSeq(q, 1, 3), dx, d) ELSE NoGradient(L, m)
      gr == IF on[2] THEN Gradient(L, k, m, SubSeq(q, 2, 4), dx, d) ELSE NoGradient(L, m) IN
  RecAdmissible(L, m, q[2], gl, dt, dx, d, TRUE) /\ RecAdmissible(L, m, q[3], gr, dt, dx, d, FALSE)
MusclScales(L, k, m, q, dt, dx, d) ==
  <<RecScale(L, m, q[2], GradientScale(L, m, SubSeq(q, 1, 3), dx, d), dt, dx, d),
    RecScale(L, m, q[3], GradientScale(L, m, SubSeq(q, 2, 4), dx, d), dt, dx, d)>>

-----------------------------------------------------------------------------
\* The third order Runge-Kutta method of Bell, Garcia and Williams for the
\* compressible Navier-Stokes equations: 12 cells, the flux between the sixth
\* and the seventh.  Faces are numbered by the cell to their right.
Alpha1 == RDiv(RSqrt(7) (+) "1", 4)
Alpha2 == RDiv(RSqrt(7) (-) "1", 4)
ToFace(a, b, c, e) == [i \in 1..3 |-> RMul(Alpha1, b[i] (+) c[i]) (-) RMul(Alpha2, a[i] (+) e[i])]
Viscous(L, l, r, f, dx, eta0, k0) ==
  LET T(q) == TemperatureOf(L, q[1], Pr(L, q)) s == RSqrt(T(f))
      ux == RDiv((r[2] (/) r[1]) (-) (l[2] (/) l[1]), dx) tx == RDiv(T(r) (-) T(l), dx)
      tau == RMul(RDiv(4, 3), RMul(eta0, s) (.) ux) IN
  <<Zero, tau, (tau (.) (f[2] (/) f[1])) (+) RMul(RMul(k0, s), tx)>>
FaceFlux(L, q, i, dx, eta0, k0) == \* q: the complete states of the cells i-2 .. i+1
  LET f == FromCons(L, ToFace(q[i - 2], q[i - 1], q[i], q[i + 1]))
      v == Viscous(L, q[i - 1], q[i], f, dx, eta0, k0) p == Flux(L, f, 1) IN
  [c \in 1..3 |-> p[c] (-) v[c]]
RungeKuttaFlux(L, q, dt, dx, eta0, k0) ==
  LET lam == RDiv(dt, dx)
      \* the functions are defined on the faces and cells that are needed
      F0 == [i \in 3..11 |-> FaceFlux(L, q, i, dx, eta0, k0)]
      q1 == [i \in 3..10 |-> FromCons(L, [c \in 1..3 |-> q[i][c] (+) (lam (.) (F0[i][c] (-) F0[i + 1][c]))])]
      F1 == [i \in 5..9 |-> FaceFlux(L, q1, i, dx, eta0, k0)]
      q2 == [i \in 5..8 |-> FromCons(L, [c \in 1..3 |->
               RMul("0.75", q[i][c]) (+) RMul("0.25", q1[i][c] (+) (lam (.) (F1[i][c] (-) F1[i + 1][c])))])]
      F2 == FaceFlux(L, q2, 7, dx, eta0, k0) IN
  [c \in 1..3 |-> RDiv((F0[7][c] (+) F1[7][c]) (+) RMul(4, F2[c]), 6)]
RungeKuttaScale(L, q, dx, eta0, k0) ==
  LET s == [c \in 1..3 |-> RSum([i \in 1..12 |-> FluxScale(L, q[i], 1)[c]])]
      T(i) == TemperatureOf(L, q[i][1], Pr(L, q[i]))
      U == RSum([i \in 1..12 |-> RAbs(q[i][2] (/) q[i][1])]) Ts == RSum([i \in 1..12 |-> T(i)])
      v == RDiv(RMul(eta0, RSqrt(Ts)) (.) U, dx) IN
  <<s[1], s[2] (+) v, (s[3] (+) (v (.) U)) (+) RDiv(RMul(RMul(k0, RSqrt(Ts)), Ts), dx)>>
=============================================================================
