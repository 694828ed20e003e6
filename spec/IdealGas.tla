------------------------------ MODULE IdealGas ------------------------------
(* The equations of motion of a mixture of ideal gases in n dimensions.  A     *)
(* complete state is a sequence: density, momentum, total energy, densities of *)
(* the species, pressure, speed of sound, heat capacity, ratio of the heat     *)
(* capacities, temperature.                                                    *)
EXTENDS Mixture
NCons(n) == n + 2 + NS
NAll(n) == NCons(n) + 5
Dims(n) == 1..n
Rho(q) == q[1]
Mom(q, i) == q[1 + i]
Vel(q, i) == q[1 + i] (/) q[1]
Tot(n, q) == q[n + 2]
Part(n, q, s) == q[n + 2 + s]
Pre(n, q) == q[NCons(n) + 1]
Snd(n, q) == q[NCons(n) + 2]
CpIn(n, q) == q[NCons(n) + 3]
GammaIn(n, q) == q[NCons(n) + 4]
Tem(n, q) == q[NCons(n) + 5]
Ys(n, q) == [s \in Species |-> Part(n, q, s) (/) q[1]]
Kinetic(n, q) == RSum([i \in Dims(n) |-> RSq(Mom(q, i))]) (/) (2 (.) q[1])
\* the complete state of a mixture that moves with velocity u
Moving(n, m, u) ==
  LET p == Pressure(m) cp == Cp(m.Y, m.T) g == Gamma(m.Y, m.T)
      k == RSum([i \in Dims(n) |-> RSq(u[i])]) (/) 2
      c == NCons(n) IN
  TLCEval([i \in 1..NAll(n) |->
    IF i = 1 THEN m.rho ELSE IF i <= 1 + n THEN m.rho (.) u[i - 1]
    ELSE IF i = n + 2 THEN m.rho (.) (Energy(m.Y, m.T) (+) k)
    ELSE IF i <= c THEN m.rho (.) m.Y[i - n - 2]
    ELSE IF i = c + 1 THEN p ELSE IF i = c + 2 THEN RSqrt((g (.) p) (/) m.rho)
    ELSE IF i = c + 3 THEN cp ELSE IF i = c + 4 THEN g ELSE m.T])
\* the mixture that is in a complete state
Content(n, q) == [Y |-> Fractions([s \in Species |-> Part(n, q, s)]), T |-> Tem(n, q), rho |-> q[1]]
-----------------------------------------------------------------------------
Flux(n, q, d) ==
  LET u == Vel(q, d) p == Pre(n, q) IN
  TLCEval([i \in 1..NCons(n) |->
    IF i = 1 THEN Mom(q, d) ELSE IF i = 1 + d THEN (u (.) q[i]) (+) p
    ELSE IF i = n + 2 THEN u (.) (q[i] (+) p) ELSE u (.) q[i]])
FluxSize(n, q, d) ==
  LET u == RAbs(Vel(q, d)) p == Pre(n, q) IN
  [i \in 1..NCons(n) |-> IF i = 1 + d THEN (u (.) RAbs(q[i])) (+) p
    ELSE IF i = n + 2 THEN u (.) (RAbs(q[i]) (+) p) ELSE u (.) RAbs(q[i])]
\* Einfeldt's speeds with averages of the squares of the speeds of sound
Speeds(n, l, r, d) ==
  LET a == RSqrt(l[1]) b == RSqrt(r[1]) w == a (+) b
      ul == Vel(l, d) ur == Vel(r, d)
      u == ((a (.) ul) (+) (b (.) ur)) (/) w
      c2 == (((a (.) RSq(Snd(n, l))) (+) (b (.) RSq(Snd(n, r)))) (/) w) (+) (((a (.) b) (/) (2 (.) RSq(w))) (.) RSq(ur (-) ul))
      c == RSqrt(c2) IN
  <<RMin(ul (-) Snd(n, l), u (-) c), RMax(ur (+) Snd(n, r), u (+) c)>>
Hll(n, l, r, d) ==
  LET s == Speeds(n, l, r, d) x == RMin("0", s[1]) y == RMax("0", s[2])
      f == Flux(n, l, d) g == Flux(n, r, d) IN
  TLCEval([i \in 1..NCons(n) |-> (((y (.) f[i]) (-) (x (.) g[i])) (+) ((x (.) y) (.) (r[i] (-) l[i]))) (/) (y (-) x)])
HllP(n, l, r, d) ==
  LET s == Speeds(n, l, r, d) x == RMin("0", s[1]) y == RMax("0", s[2]) IN
  ((y (.) Pre(n, l)) (-) (x (.) Pre(n, r))) (/) (y (-) x)
Fastest(n, l, r, d) == LET s == Speeds(n, l, r, d) IN RMax(RAbs(s[1]), RAbs(s[2]))
HllSize(n, l, r, d) ==
  LET m == Fastest(n, l, r, d) f == FluxSize(n, l, d) g == FluxSize(n, r, d) IN
  [i \in 1..NCons(n) |-> (f[i] (+) g[i]) (+) (m (.) (RAbs(l[i]) (+) RAbs(r[i])))]
-----------------------------------------------------------------------------
\* Limited differences: minmod, and van Leer's harmonic mean.  "first" limits
\* the species all by the factor of the first one, so that they sum up.
MinMod(x, y) == IF RLess("0", x) /\ RLess("0", y) THEN RMin(x, y) ELSE IF RLess(x, "0") /\ RLess(y, "0") THEN RMax(x, y) ELSE "0"
VanLeer(x, y) == LET c == 2 (.) (x (.) y) IN IF RLess("0", c) THEN c (/) (x (+) y) ELSE "0"
\* half of the difference over two cells; steps that are only round off do not count
Tiny == "1e-12"
Factor(x, y) ==
  LET h == (x (+) y) (/) 2 IN
  IF ~RLess(Tiny, RAbs(h)) THEN "0"
  ELSE LET r == RMin(x (/) h, y (/) h) IN IF RLess("0", r) THEN (2 (.) r) (/) (1 (+) r) ELSE "0"
Damped(x, y) == Factor(x, y) (.) ((x (+) y) (/) 2)
\* variables of the "prim" method: pressure, velocity, temperature, fractions
PrimOf(n, q) == [i \in 1..(n + 2 + NS) |->
  IF i = 1 THEN Pre(n, q) ELSE IF i <= n + 1 THEN Vel(q, i - 1) ELSE IF i = n + 2 THEN Tem(n, q) ELSE Part(n, q, i - n - 2) (/) q[1]]
FromPrim(n, w) ==
  LET m0 == [Y |-> Fractions([s \in Species |-> w[n + 2 + s]]), T |-> w[n + 2], rho |-> "1"] IN
  Moving(n, SetPressure(m0, w[1]), [i \in Dims(n) |-> w[1 + i]])
PrimSlopes(n, array, a, b, c) ==
  LET x == TLCEval([i \in DOMAIN a |-> b[i] (-) a[i]]) y == TLCEval([i \in DOMAIN a |-> c[i] (-) b[i]]) k == n + 3 IN
  TLCEval([i \in DOMAIN a |->
    IF ~array THEN MinMod(x[i], y[i])
    ELSE IF i < k THEN Damped(x[i], y[i]) ELSE Factor(x[k], y[k]) (.) ((x[i] (+) y[i]) (/) 2)])
\* the equations of motion in these variables: rates of change for given slopes
PrimRates(n, q, g, d) ==
  LET u == Vel(q, d) IN
  TLCEval([i \in DOMAIN g |->
    (RNeg(u) (.) g[i]) (-)
    (IF i = 1 THEN GammaIn(n, q) (.) (Pre(n, q) (.) g[1 + d])
     ELSE IF i = 1 + d THEN g[1] (/) q[1]
     ELSE IF i = n + 2 THEN (Pre(n, q) (/) (q[1] (.) (CpIn(n, q) (/) GammaIn(n, q)))) (.) g[1 + d]
     ELSE "0")])
\* half a cell towards the face, half a step ahead
PrimAhead(n, q, g, d, lambda, up) ==
  LET w == PrimOf(n, q) r == PrimRates(n, q, g, d) IN
  TLCEval([i \in DOMAIN w |-> w[i] (+) (((IF up THEN g[i] ELSE RNeg(g[i])) (+) (lambda (.) r[i])) (/) 2)])
\* variables of the "char" method: density, velocity, pressure, fractions, and
\* the waves of their differences: sound to the left, contact, shear, sound to
\* the right, species
FlowOf(n, q) == [i \in 1..(n + 2 + NS) |->
  IF i = 1 THEN q[1] ELSE IF i <= n + 1 THEN Vel(q, i - 1) ELSE IF i = n + 2 THEN Pre(n, q) ELSE Part(n, q, i - n - 2) (/) q[1]]
FromFlow(n, w) ==
  LET Y == Fractions([s \in Species |-> w[n + 2 + s]]) IN
  Moving(n, [Y |-> Y, rho |-> w[1], T |-> w[n + 2] (/) (w[1] (.) (R0 (.) PerMass(Y)))], [i \in Dims(n) |-> w[1 + i]])
ToWaves(n, q, dw, d) ==
  LET z == q[1] (.) Snd(n, q) IN
  TLCEval([i \in DOMAIN dw |-> IF i = 1 THEN dw[1] (-) (dw[n + 2] (/) RSq(Snd(n, q)))
    ELSE IF i = 1 + d THEN dw[n + 2] (-) (z (.) dw[1 + d])
    ELSE IF i = n + 2 THEN dw[n + 2] (+) (z (.) dw[1 + d]) ELSE dw[i]])
FromWaves(n, q, K, d) ==
  LET dp == (K[1 + d] (+) K[n + 2]) (/) 2 IN
  TLCEval([i \in DOMAIN K |-> IF i = 1 THEN K[1] (+) (dp (/) RSq(Snd(n, q)))
    ELSE IF i = 1 + d THEN (K[n + 2] (-) K[1 + d]) (/) (2 (.) (q[1] (.) Snd(n, q)))
    ELSE IF i = n + 2 THEN dp ELSE K[i]])
WaveSpeed(n, q, i, d) == IF i = 1 + d THEN Vel(q, d) (-) Snd(n, q) ELSE IF i = n + 2 THEN Vel(q, d) (+) Snd(n, q) ELSE Vel(q, d)
CharAhead(n, a, q, c, d, lambda, up, has, L(_, _)) ==
  LET w == FlowOf(n, q) wa == FlowOf(n, a) wc == FlowOf(n, c)
      x == ToWaves(n, q, TLCEval([i \in DOMAIN w |-> w[i] (-) wa[i]]), d)
      y == ToWaves(n, q, TLCEval([i \in DOMAIN w |-> wc[i] (-) w[i]]), d)
      K == TLCEval([i \in DOMAIN w |-> LET k == L(x[i], y[i]) (/) 2 IN
              IF ~has THEN "0" ELSE IF up THEN k (.) (1 (-) (lambda (.) WaveSpeed(n, q, i, d)))
              ELSE RNeg(k) (.) (1 (+) (lambda (.) WaveSpeed(n, q, i, d)))])
      dw == FromWaves(n, q, K, d) IN
  TLCEval([i \in DOMAIN w |-> w[i] (+) dw[i]])
\* the states on both sides of the face between the inner two of four cells;
\* has: are the outer cells there?
Sides(n, how, q, d, lambda, has) ==
  CASE how \in {"prim", "prim-array"} ->
    LET w == [i \in 1..4 |-> IF (i = 1 /\ ~has[1]) \/ (i = 4 /\ ~has[2]) THEN <<>> ELSE PrimOf(n, q[i])]
        none == [i \in 1..(n + 2 + NS) |-> "0"] ar == how = "prim-array"
        g == IF has[1] THEN PrimSlopes(n, ar, w[1], w[2], w[3]) ELSE none
        h == IF has[2] THEN PrimSlopes(n, ar, w[2], w[3], w[4]) ELSE none IN
    <<FromPrim(n, PrimAhead(n, q[2], g, d, lambda, TRUE)), FromPrim(n, PrimAhead(n, q[3], h, d, lambda, FALSE))>>
    [] OTHER ->
    LET L(x, y) == IF how = "char-minmod" THEN MinMod(x, y) ELSE VanLeer(x, y)
        a == IF has[1] THEN q[1] ELSE q[2] b == IF has[2] THEN q[4] ELSE q[3] IN
    <<FromFlow(n, CharAhead(n, a, q[2], q[3], d, lambda, TRUE, has[1], L)),
      FromFlow(n, CharAhead(n, q[2], q[3], b, d, lambda, FALSE, has[2], L))>>
Muscl(n, how, q, d, lambda, has) == LET s == Sides(n, how, q, d, lambda, has) IN Hll(n, s[1], s[2], d)
-----------------------------------------------------------------------------
\* rotations and reflections change the momentum only
Turned(n, q, R) == [i \in DOMAIN q |-> IF i \in 2..(n + 1) THEN RSum([j \in Dims(n) |-> R[i - 1][j] (.) q[1 + j]]) ELSE q[i]]
Mirrored(n, q, nu) ==
  LET m == RSum([j \in Dims(n) |-> nu[j] (.) q[1 + j]]) IN
  [i \in DOMAIN q |-> IF i \in 2..(n + 1) THEN q[i] (-) ((2 (.) m) (.) nu[i - 1]) ELSE q[i]]
=============================================================================
