--------------------------- MODULE MCExactRiemann ---------------------------
(* The description of the waves satisfies the conservation laws: jump          *)
(* conditions, Riemann invariants, entropy condition, symmetry; and Godunov's  *)
(* flux for scalar laws is Osher's formula.                                    *)
EXTENDS ExactRiemann, TLC
CONSTANTS Rhos, Us, Vs, Ps, Gammas, Ratios, Xis
VARIABLES L, wl, wr, k
vars == <<L, wl, wr, k>>
Gas(n, g) == [law |-> "gas", n |-> n, ns |-> 0, np |-> 0, gamma |-> g, rspec |-> "1", msq |-> "1", g |-> "0", vel |-> <<>>]
Swe(g) == [law |-> "swe", n |-> 2, ns |-> 0, np |-> 0, gamma |-> "1", rspec |-> "1", msq |-> "1", g |-> g, vel |-> <<>>]
Laws == {Gas(n, g) : n \in {1, 2}, g \in Gammas} \cup {Swe("9.81")}
Prims(M) == {<<r, u>> \o v \o p : r \in Rhos, u \in Us, v \in [1..(M.n - 1) -> Vs], p \in IF IsGas(M) THEN {<<x>> : x \in Ps} ELSE {<<>>}}
State(M, w) == IF IsGas(M) THEN FromPrim(M, w) ELSE <<w[1], w[1] (.) w[2], w[1] (.) w[3]>>
Init == L \in Laws /\ wl \in Prims(L) /\ wr = wl /\ k = 0
Next == k = 0 /\ k' = 1 /\ wr' \in Prims(L) /\ UNCHANGED <<L, wl>>
Spec == Init /\ [][Next]_vars
l == State(L, wl)
r == State(L, wr)
Eps == "1e-11"
Tight == "1e-28"
Same(a, b, e) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RWithin(a[i], b[i], RMul(e, RMax("1", RMax(RAbs(a[i]), RAbs(b[i])))))
u(z) == Un(L, l, 1) (-) Curve(L, l, z)
Zs == {RMul(x, Z(L, l)) : x \in Ratios}
AtMost(x, y) == RLeq(x, y (+) "1e-12")
JumpConditions == \A z \in Zs : IsShock(L, l, z) =>
  LET s == ShockSpeed(L, l, 1, z) q == Star(L, l, 1, z, u(z)) IN
  /\ \A c \in 1..NC(L) : RWithin(s (.) (q[c] (-) l[c]), Flux(L, q, 1)[c] (-) Flux(L, l, 1)[c], RMul(Tight, RMul("1e4", FluxScale(L, q, 1)[c] (+) FluxScale(L, l, 1)[c])))
  \* characteristics run into the shock
  /\ RLess(s, WaveSpeeds(L, l, 1)[1]) /\ RLess(WaveSpeeds(L, q, 1)[1], s)
Entropy(q) == IF IsGas(L) THEN RLog(Pr(L, q)) (-) RMul(L.gamma, RLog(q[1])) ELSE Zero
Invariant(q) == Un(L, q, 1) (+) (IF IsGas(L) THEN RDiv(RMul(2, Snd(L, q)), Gm(L)) ELSE RMul(2, Snd0(L, q)))
Rarefactions == \A z \in Zs : ~IsShock(L, l, z) =>
  LET e == Edges(L, l, 1, z, u(z)) q == Star(L, l, 1, z, u(z)) IN
  /\ AtMost(e[1], e[2]) /\ AtMost(e[2], u(z))
  /\ Same(<<Entropy(q), Invariant(q)>>, <<Entropy(l), Invariant(l)>>, Eps)
  /\ Same(Fan(L, l, 1, e[1]), l, Eps) /\ Same(Fan(L, l, 1, e[2]), q, Eps)
  /\ \A x \in {"0.25", "0.7"} :
       LET xi == e[1] (+) RMul(x, e[2] (-) e[1]) f == Fan(L, l, 1, xi) IN
       /\ Same(<<Un(L, f, 1) (-) Snd0(L, f), Entropy(f), Invariant(f)>>, <<xi, Entropy(l), Invariant(l)>>, Eps)
       /\ IsGas(L) => Same(f, FromCons(L, Cons(L, f)), Eps)
NoWave == Same(Star(L, l, 1, Z(L, l), Un(L, l, 1)), l, Eps)
Stronger == \A z, y \in Zs : RLess(z, y) => RLess(Curve(L, l, z), Curve(L, l, y))
\* what is transverse or carried is that of its own side
Carries == L.n > 1 => \A z \in Zs : LET q == Star(L, l, 1, z, u(z)) IN REq(q[3] (/) q[1], l[3] (/) l[1]) \/ RWithin(q[3] (/) q[1], l[3] (/) l[1], Tight)
Shifted(q, v) == LET m == [i \in 1..L.n |-> q[1 + i] (+) RMul(v[i], q[1])] w == WithVector(q, L.n, m) IN
                 IF IsGas(L) THEN FromCons(L, [i \in 1..NC(L) |-> IF i = L.n + 2 THEN EnergyOf(L, q[1], m, Pr(L, q)) ELSE w[i]]) ELSE w
ZM == MiddleZ(L, l, r, 1)
UM == MiddleU(L, l, r, 1, ZM)
Solved == k = 1 /\ Connected(L, l, r, 1)
At(xi) == SolutionAt(L, l, r, 1, ZM, UM, xi)
Middle == Solved => RWithin(Gap(L, l, r, 1, ZM), Zero, "1e-9")
SameAs(a, b) == Same(a, b, "1e-7")
Symmetric == Solved =>
  LET z == ZM v == UM IN \A xi \in Xis :
    \/ RWithin(xi, v, "1e-6")
    \/ SameAs(SolutionAt(L, l, r, 1, z, v, xi), Mir(L, SolutionAt(L, Mir(L, r, 1), Mir(L, l, 1), 1, z, RNeg(v), RNeg(xi)), 1))
\* every wave is seen at the same place by a moving observer
Galilean == Solved =>
  LET z == ZM v == UM w == [i \in 1..L.n |-> IF i = 1 THEN "0.75" ELSE "-2"] IN \A xi \in Xis :
    SameAs(SolutionAt(L, Shifted(l, w), Shifted(r, w), 1, z, v (+) w[1], xi (+) w[1]), Shifted(SolutionAt(L, l, r, 1, z, v, xi), w))
Ordered == Solved =>
  LET z == ZM v == UM s == FastWaves(L, l, r, 1, z, v) a == Edges(L, l, 1, z, v) b == Edges(L, Mir(L, r, 1), 1, z, RNeg(v)) IN
  /\ AtMost(s[1], a[2]) /\ AtMost(a[2], v) /\ AtMost(v, RNeg(b[2])) /\ AtMost(RNeg(b[2]), s[2])
  /\ SameAs(SolutionAt(L, l, r, 1, z, v, s[1] (-) "0.01"), l) /\ SameAs(SolutionAt(L, l, r, 1, z, v, s[2] (+) "0.01"), r)
Positive == Solved => LET z == ZM v == UM IN \A xi \in Xis : LET q == SolutionAt(L, l, r, 1, z, v, xi) IN RLess(Zero, q[1]) /\ RLess(Zero, Z(L, q))
\* Osher: the flux at xi = 0 is the least (a <= b) or largest (b <= a) between both states
B(x) == RDiv(RSq(x), 2)
Osher(a, b) == IF RLeq(a, b) THEN (IF RLeq(a, Zero) /\ RLeq(Zero, b) THEN Zero ELSE RMin(B(a), B(b))) ELSE RMax(B(a), B(b))
Scalar == \A a, b \in Us \cup Vs \cup {"0", "1", "-1"} : REq(B(BurgersAt0(a, b)), Osher(a, b)) /\ RLeq(Zero, BurgersSpeed(a, b))
=============================================================================
