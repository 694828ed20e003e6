---------------------------- MODULE IdealGasTrace ----------------------------
(* What the real equation, numerical fluxes and reconstructions return for     *)
(* given states.  Lanes of arrays and scalar states are judged alike.           *)
EXTENDS IdealGas, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
n == Traces[tid].cfg.n
cl(name, ok) == IF ok THEN {} ELSE {<<"C27", name>>}
Eps == "4e-13"
Fit == "4e-9"   \* the coefficients of the enthalpies have nine digits
EScale(m) == m.rho (.) EnergyScale(m.Y, m.T)
Near(x, y) == RClose(x, y, Eps, "0")
IsZero(q) == \A i \in DOMAIN q : REq(q[i], "0")
\* heat capacities are constant below 300 K, and start to change about there
Fine(q) == IF RWithin(Tem(n, q), "300", "1e-5") THEN "1e-8" ELSE "4e-12"
\* everything in a complete state follows from density, momentum, species and temperature
Coherent(q, what) ==
  LET m == Content(n, q) g == Moving(n, m, [i \in Dims(n) |-> Vel(q, i)]) IN
  cl("the species do not add up to the density: " \o what, RClose(RSum([s \in Species |-> Part(n, q, s)]), q[1], Eps, "0")) \cup
  cl("the energy is not that of the state: " \o what, RWithin(Tot(n, q), Tot(n, g), (Fit (.) EScale(m)) (+) (Eps (.) Kinetic(n, q)))) \cup
  cl("pressure, speed of sound or heat capacities are not those of the state: " \o what,
     \A i \in (NCons(n) + 1)..NAll(n) : RClose(q[i], g[i], Fine(q), "0"))
\* the polynomials of the enthalpies do not quite meet at 1000 K
Gap(q) == IF RWithin(Tem(n, q), "1000", "1e-2")
          THEN q[1] (.) MeanMass([s \in Species |-> RAbs(HOf(s, "1000.000001") (-) HOf(s, "999.999999"))], Ys(n, q)) ELSE "0"
FromCons(q, o, what) ==
  LET Y == Fractions([s \in Species |-> Part(n, q, s)]) m == Content(n, o) IN
  cl("the conserved quantities are not kept: " \o what,
     /\ \A i \in 1..(n + 1) : RClose(o[i], q[i], Eps, "0")
     /\ \A s \in Species : RWithin(Part(n, o, s), q[1] (.) Y[s], Eps (.) q[1])
     /\ RWithin(Tot(n, o), Tot(n, q), ((o[1] (.) (CpIn(n, o) (.) "2e-6")) (+) Gap(o)) (+) (("1e-11" (.) EScale(m)) (+) (Eps (.) Kinetic(n, q))))) \cup
  Coherent(o, what)
Given(e, o, what) ==
  LET m == [Y |-> e.Y, T |-> e.T, rho |-> e.rho] g == Moving(n, m, e.u) IN
  cl("the state is not that of the reactor: " \o what,
     /\ RClose(o[1], m.rho, Eps, "0") /\ RClose(Tem(n, o), m.T, Eps, "0")
     /\ \A i \in Dims(n) : RClose(Mom(o, i), g[1 + i], Eps, "0")
     /\ \A s \in Species : RWithin(Part(n, o, s), g[n + 2 + s], Eps (.) m.rho)) \cup Coherent(o, what)
Within(o, f, size, tol) == \A i \in 1..NCons(n) : RWithin(o[i], f[i], tol (.) size[i])
MusclOk(e, q, has, o) ==
  LET s == Sides(n, e.how, q, e.d, e.lambda, has) f == Hll(n, s[1], s[2], e.d) z == HllSize(n, s[1], s[2], e.d)
      x == Fastest(n, s[1], s[2], e.d)
      en == x (.) (EScale(Content(n, s[1])) (+) EScale(Content(n, s[2]))) IN
  \A i \in 1..NCons(n) : RWithin(o[i], f[i], IF i = n + 2 THEN ("1e-8" (.) en) (+) ("1e-10" (.) z[i])
                                              ELSE IF i > n + 2 THEN "1e-10" (.) z[1] ELSE IF i \in 2..(n + 1) THEN "1e-10" (.) (z[i] (+) (x (.) z[1])) ELSE "1e-10" (.) z[i])
On(e, i) == e.on[i]
Lanes(e) == DOMAIN e.o
\* f: what a lane that is switched on has to fulfil; the others are zero
Each(e, F(_), off) == UNION {IF On(e, i) THEN F(i) ELSE cl(off \o ": " \o e.a, IsZero(e.o[i])) : i \in Lanes(e)}
Off == "a lane that is masked out is not zero"
Lane(e, Cl(_)) == Each(e, Cl, Off)
Broken(e) ==
  CASE e.a = "cons" -> LET F(i) == FromCons(e.q[i], e.o[i], e.kind) IN Lane(e, F)
    [] e.a = "reactor" -> LET F(i) == Given(e.m[i], e.o[i], e.kind) IN Lane(e, F)
    [] e.a = "load" -> cl("the state of the reactor is not that of the cell",
         LET m == Content(n, e.q) IN RClose(e.rho, m.rho, Eps, "0") /\ RClose(e.T, m.T, Eps, "0") /\ \A s \in Species : RWithin(e.Y[s], m.Y[s], Eps))
    [] e.a = "velocity" -> LET F(i) == cl("a velocity is not momentum over density: " \o e.kind, \A j \in Dims(n) : Near(e.o[i][j], Vel(e.q[i], j))) IN Lane(e, F)
    [] e.a = "flux" -> LET F(i) == cl("a flux is not that of the equation: " \o e.kind, Within(e.o[i], Flux(n, e.q[i], e.d), FluxSize(n, e.q[i], e.d), Eps)) IN Lane(e, F)
    [] e.a = "speeds" -> UNION {IF ~On(e, i) THEN {} ELSE
         LET s == Speeds(n, e.q[i][1], e.q[i][2], e.d) f == Fastest(n, e.q[i][1], e.q[i][2], e.d) IN
         cl("signal speeds are not those of Einfeldt: " \o e.kind, RWithin(e.o[i][1], s[1], Eps (.) f) /\ RWithin(e.o[i][2], s[2], Eps (.) f)) : i \in Lanes(e)}
    [] e.a = "dt" -> UNION {
         IF On(e, i) THEN cl("the time step is not the time of the fastest signal over a cell: " \o e.kind, RClose(e.o[i] (.) Fastest(n, e.q[i][1], e.q[i][2], e.d), e.dx, Eps, "0"))
         ELSE cl("a lane that is masked out limits the time step: " \o e.kind, e.o[i] # "nan" /\ ~RLess(e.o[i], "1e300")) : i \in Lanes(e)}
    [] e.a = "hll" -> LET F(i) == LET x == e.q[i][1] y == e.q[i][2] IN
           cl("a numerical flux is not that of Harten, Lax and van Leer: " \o e.kind, Within(e.o[i], Hll(n, x, y, e.d), HllSize(n, x, y, e.d), "2e-12")) IN
         Lane(e, F) \cup
         UNION {IF On(e, i) THEN cl("the pressure on a face is not that of the solver: " \o e.kind,
                 LET x == e.q[i][1] y == e.q[i][2] IN RClose(e.p[i], HllP(n, x, y, e.d), "2e-12", Pre(n, x) (+) Pre(n, y))) ELSE {} : i \in DOMAIN e.p}
    [] e.a = "muscl" -> LET F(i) == cl("a numerical flux is not that of the reconstructed states: " \o e.method \o ", " \o e.kind, MusclOk(e, e.q[i], e.has[i], e.o[i])) IN Lane(e, F)
    [] e.a = "rotate" -> cl("a rotation does not turn the momentum only",
         LET r == Turned(n, e.q, e.R) m == RSum([i \in Dims(n) |-> RAbs(Mom(e.q, i))]) IN \A i \in DOMAIN e.o : RWithin(e.o[i], r[i], IF i \in 2..(n + 1) THEN Eps (.) m ELSE "0"))
    [] e.a = "reflect" -> cl("a reflection does not mirror the momentum only",
         LET r == Mirrored(n, e.q, e.nu) m == RSum([i \in Dims(n) |-> RAbs(Mom(e.q, i))]) IN \A i \in DOMAIN e.o : RWithin(e.o[i], r[i], IF i \in 2..(n + 1) THEN Eps (.) m ELSE "0"))
    [] e.a = "names" -> LET mom == IF n = 1 THEN <<"Momentum">> ELSE [i \in Dims(n) |-> "Momentum_" \o ToString(i - 1)]
                           c == (<<"Density">> \o mom) \o (<<"Energy">> \o Names) IN
         cl("the names of the variables are wrong", e.cons = c /\ e.complete = c \o <<"Pressure", "SpeedOfSound", "Temperature", "HeatCapacityAtConstantPressure", "HeatCapacityRatio">>)
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
