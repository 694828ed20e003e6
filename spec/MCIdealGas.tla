----------------------------- MODULE MCIdealGas -----------------------------
(* Mixtures of ideal gases on a grid of pairs of states: the numerical flux is *)
(* consistent, conservative, mirror symmetric, upwind and positive; both sets  *)
(* of variables of the reconstructions obey the same conservation laws; the    *)
(* reconstructed states of a uniform flow are that flow, and reconstruction    *)
(* does not know left from right, nor one axis from another.                   *)
EXTENDS IdealGas
CONSTANTS Temps, Densities, Speeds1, Mixes, DimSet, Hows
VARIABLES n, a, b, k
vars == <<n, a, b, k>>
Mix(x) == CASE x = "air" -> [i \in Species |-> IF i = 1 THEN "0.7" ELSE IF i = 4 THEN "0.3" ELSE "0"]
            [] x = "burnt" -> [i \in Species |-> IF i = 1 THEN "0.6" ELSE IF i = 8 THEN "0.3" ELSE IF i = 4 THEN "0.1" ELSE "0"]
            [] x = "radicals" -> Fractions([i \in Species |-> "1"])
            [] x = "helium" -> [i \in Species |-> IF i = 9 THEN "1" ELSE "0"]
State(d, T, rho, u, x) == Moving(d, [Y |-> Mix(x), T |-> T, rho |-> rho], [i \in 1..d |-> IF i = 1 THEN u ELSE IF i = 2 THEN "40" ELSE "-70"])
Init == /\ \E d \in DimSet, T \in Temps, rho \in Densities, u \in Speeds1, x \in Mixes : n = d /\ a = State(d, T, rho, u, x) /\ b = a
        /\ k = 0
Next == /\ k = 0 /\ k' = 1 /\ UNCHANGED <<n, a>>
        /\ \E T \in Temps, rho \in Densities, u \in Speeds1, x \in Mixes : b' = State(n, T, rho, u, x)
Spec == Init /\ [][Next]_vars
Eps == "1e-28"
Same(f, g, s) == \A i \in 1..NCons(n) : RWithin(f[i], g[i], Eps (.) s[i])
E1 == [i \in Dims(n) |-> IF i = 1 THEN "1" ELSE "0"]
Mir(q) == Mirrored(n, q, E1)
Neg(f) == [i \in DOMAIN f |-> RNeg(f[i])]
\* the mirror image of a flux of conserved quantities
MirF(f) == [i \in DOMAIN f |-> IF i = 2 THEN f[i] ELSE RNeg(f[i])]
\* exchange the first and the last axis
Swap(q) == [i \in DOMAIN q |-> IF i = 2 THEN q[n + 1] ELSE IF i = n + 1 THEN q[2] ELSE q[i]]
Consistent == Same(Hll(n, a, a, 1), Flux(n, a, 1), HllSize(n, a, a, 1))
MirrorSymmetric == LET f == Hll(n, a, b, 1) g == Hll(n, Mir(b), Mir(a), 1) IN Same(g, MirF(f), HllSize(n, a, b, 1))
AxesAlike == n > 1 => Same(Hll(n, Swap(a), Swap(b), n), Swap(Hll(n, a, b, 1)), Swap(HllSize(n, a, b, 1)))
Sp == Speeds(n, a, b, 1)
UpwindIfSupersonic == /\ RLess("0", Sp[1]) => Same(Hll(n, a, b, 1), Flux(n, a, 1), HllSize(n, a, b, 1))
                      /\ RLess(Sp[2], "0") => Same(Hll(n, a, b, 1), Flux(n, b, 1), HllSize(n, a, b, 1))
Middle == LET f == Flux(n, a, 1) g == Flux(n, b, 1) IN
  [i \in 1..NCons(n) |-> (((Sp[2] (.) b[i]) (-) (Sp[1] (.) a[i])) (-) (g[i] (-) f[i])) (/) (Sp[2] (-) Sp[1])]
Conservative == RLess(Sp[1], "0") /\ RLess("0", Sp[2]) =>
  LET f == Hll(n, a, b, 1) m == Middle fa == Flux(n, a, 1) fb == Flux(n, b, 1) IN
  Same(f, [i \in DOMAIN f |-> fa[i] (+) (Sp[1] (.) (m[i] (-) a[i]))], HllSize(n, a, b, 1)) /\
  Same(f, [i \in DOMAIN f |-> fb[i] (+) (Sp[2] (.) (m[i] (-) b[i]))], HllSize(n, a, b, 1))
Positive == LET m == Middle IN
  /\ RLess("0", m[1]) /\ \A s \in Species : RLeq("0", m[n + 2 + s])
  /\ RClose(RSum([s \in Species |-> m[n + 2 + s]]), m[1], "1e-20", "0")
Bounds == /\ RLeq(Sp[1], Vel(a, 1) (-) Snd(n, a)) /\ RLeq(Vel(b, 1) (+) Snd(n, b), Sp[2]) /\ RLess(Sp[1], Sp[2])
\* d/dt of the conserved quantities is -d/dx of the flux, in both sets of variables
\* (within the digits of the coefficients of the mechanism)
Tick == "1e-13"
LawsHold(w, g, r, From(_, _)) ==
  LET go(dir) == TLCEval(From(n, TLCEval([i \in DOMAIN w |-> w[i] (+) (Tick (.) dir[i])])))
      back(dir) == TLCEval(From(n, TLCEval([i \in DOMAIN w |-> w[i] (-) (Tick (.) dir[i])])))
      u == go(r) v == back(r)
      f == TLCEval(Flux(n, go(g), 1)) h == TLCEval(Flux(n, back(g), 1)) s == FluxSize(n, a, 1) t == FluxSize(n, b, 1) IN
  \A i \in 1..NCons(n) : LET x == (u[i] (-) v[i]) (/) (2 (.) Tick) y == (h[i] (-) f[i]) (/) (2 (.) Tick) IN
    RWithin(x, y, (IF i = n + 2 THEN "2e-6" ELSE "1e-7") (.) ((RAbs(x) (+) (s[i] (+) t[i])) (+) ((RAbs(a[i]) (+) RAbs(b[i])) (.) Snd(n, a))))
Slopes(w, z) == TLCEval([i \in DOMAIN w |-> z[i] (-) w[i]])
PrimLaws == LET w == PrimOf(n, a) g == Slopes(w, PrimOf(n, b)) IN LawsHold(w, g, PrimRates(n, a, g, 1), FromPrim)
FlowLaws == LET w == FlowOf(n, a) g == Slopes(w, FlowOf(n, b)) K == ToWaves(n, a, g, 1)
                r == FromWaves(n, a, TLCEval([i \in DOMAIN K |-> RNeg(WaveSpeed(n, a, i, 1)) (.) K[i]]), 1) IN LawsHold(w, g, r, FromFlow)
BackAndForth == LET w == FlowOf(n, a) z == FlowOf(n, b) g == Slopes(w, z) h == FromWaves(n, a, ToWaves(n, a, g, 1), 1) IN
  \A i \in DOMAIN w : RWithin(g[i], h[i], "1e-26" (.) ((RAbs(w[i]) (+) RAbs(z[i])) (+) "1e3"))
Both == {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE>>}
Lam == "2e-4"
Alike(q, p) == \A i \in DOMAIN q : RClose(q[i], p[i], "1e-24", "1e-20")
Uniform == k = 0 => \A how \in Hows, has \in Both : LET s == Sides(n, how, <<a, a, a, a>>, 1, Lam, has) IN Alike(s[1], a) /\ Alike(s[2], a)
\* reconstructions of a stencil and of its mirror image
Admissible(q) == RLess("0", q[1]) /\ RLess("0", Pre(n, q)) /\ RLess("0", Tem(n, q))
Stencils == {<<a, a, b, b>>, <<a, b, b, a>>}
Unsided == k = 1 => \A how \in Hows, has \in {<<TRUE, TRUE>>, <<TRUE, FALSE>>}, q \in Stencils :
  LET s == Sides(n, how, q, 1, Lam, has) t == Sides(n, how, <<Mir(q[4]), Mir(q[3]), Mir(q[2]), Mir(q[1])>>, 1, Lam, <<has[2], has[1]>>) IN
  /\ (how # "prim-array" => Alike(t[1], Mir(s[2])) /\ Alike(t[2], Mir(s[1])))
  /\ \A x \in {s[1], s[2]} : RClose(RSum([i \in Species |-> Part(n, x, i)]), x[1], "1e-24", "0")
\* a monotone step is not overshot at the frozen state (no time, lambda = 0)
Between == k = 1 => \A how \in Hows : LET s == Sides(n, how, <<a, a, b, b>>, 1, "0", <<TRUE, TRUE>>) IN Alike(s[1], a) /\ Alike(s[2], b)
=============================================================================
