--------------------------- MODULE MCRiemannFlux ---------------------------
(* The approximate Riemann solvers on a grid of pairs of states: consistent,  *)
(* conservative, mirror symmetric, upwind in supersonic flow, positive, and   *)
(* HLLEM keeps isolated contact, shear and species waves at rest exactly.     *)
EXTENDS RiemannFlux, TLC
CONSTANTS Rhos, Us, Vs, Ps, Msqs, Dims
VARIABLES L, wl, wr, k   \* the pair is complete when k = 1
vars == <<L, wl, wr, k>>
Law(n, m) == [law |-> "mix", n |-> n, ns |-> 1, np |-> 1, gamma |-> "1.4", rspec |-> "1", msq |-> m, g |-> "0", vel |-> <<>>]
\* the normal velocity along axis 1; tangential ones from Vs
Prims(n, y) == {<<r, u>> \o v \o <<p, y, "-2">> : r \in Rhos, u \in Us, v \in [1..(n - 1) -> Vs], p \in Ps}
Init == \E n \in Dims, m \in Msqs : L = Law(n, m) /\ wl \in Prims(n, "0.25") /\ wr = wl /\ k = 0
Next == k = 0 /\ k' = 1 /\ wr' \in Prims(L.n, "0.75") /\ UNCHANGED <<L, wl>>
Spec == Init /\ [][Next]_vars
l == FromPrim(L, wl)
r == FromPrim(L, wr)
Eps == "1e-28"
Big == RMul(Eps, "100")
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RWithin(a[i], b[i], RMul(Eps, RMax("1", RMax(RAbs(a[i]), RAbs(b[i])))))
Near(a, b, s) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RWithin(a[i], b[i], RMul(Eps, RMax("1", s[i])))
Unit(d) == [i \in 1..L.n |-> IF i = d THEN "1" ELSE "0"]
Mir(q) == ReflectState(q, L.n, Unit(1))
NegV(v) == [i \in DOMAIN v |-> RNeg(v[i])]
Lars == {TRUE, FALSE}
Sp == EinfeldtInner(L, l, r, 1)
So == EinfeldtOuter(L, l, r, 1)

\* all axes do the same: turn the states by one axis
Turn(q) == WithVector(q, L.n, [i \in 1..L.n |-> q[1 + (IF i = 1 THEN L.n ELSE i - 1)]])
AxesAlike == L.n > 1 => \A lar \in Lars :
  Near(HllemFlux(L, lar, Turn(l), Turn(r), 2), Turn(HllemFlux(L, lar, l, r, 1)), HllemScale(L, l, r, 1))
Consistent ==
  /\ Same(HllFlux(L, l, l, 1, EinfeldtInner(L, l, l, 1)), Flux(L, l, 1))
  /\ \A lar \in Lars : Near(HllemFlux(L, lar, l, l, 1), Flux(L, l, 1), HllemScale(L, l, l, 1))
MirrorSymmetric ==
  /\ Near(HllFlux(L, Mir(r), Mir(l), 1, EinfeldtInner(L, Mir(r), Mir(l), 1)), Mir(NegV(HllFlux(L, l, r, 1, Sp))), HllScale(L, l, r, 1, Sp))
  /\ \A lar \in Lars : Near(HllemFlux(L, lar, Mir(r), Mir(l), 1), Mir(NegV(HllemFlux(L, lar, l, r, 1))), HllemScale(L, l, r, 1))
UpwindIfSupersonic ==
  /\ RLess(Zero, Sp[1]) => Same(HllFlux(L, l, r, 1, Sp), Flux(L, l, 1))
  /\ \A lar \in Lars : RLess(Zero, HllemUsedSpeeds(L, lar, l, r, 1)[1]) => Near(HllemFlux(L, lar, l, r, 1), Flux(L, l, 1), HllemScale(L, l, r, 1))
Conservative ==
  RLess(Sp[1], Zero) /\ RLess(Zero, Sp[2]) =>
    LET f == HllFlux(L, l, r, 1, Sp) w == HllState(L, l, r, 1, Sp) fl == Flux(L, l, 1) fr == Flux(L, r, 1) IN
    \A c \in 1..NC(L) : /\ RWithin(f[c], fl[c] (+) RMul(Sp[1], w[c] (-) l[c]), Big)
                        /\ RWithin(f[c], fr[c] (+) RMul(Sp[2], w[c] (-) r[c]), Big)
Positive == L.msq = "1" => Admissible(L, HllState(L, l, r, 1, Sp))
SpeedsNested == L.msq = "1" => RLeq(So[1], Sp[1]) /\ RLeq(Sp[2], So[2])
\* no wave of either state is faster than the bounds to its side
Bounds == L.msq = "1" => RLeq(Sp[1], WaveSpeeds(L, l, 1)[1]) /\ RLeq(WaveSpeeds(L, r, 1)[2], Sp[2])
\* pressure equal, no normal motion: whatever else jumps stays where it is
AtRest == wl[L.n + 2] = wr[L.n + 2] /\ wl[2] = "0" /\ wr[2] = "0"
KeepsContacts == AtRest => \A lar \in Lars :
  Near(HllemFlux(L, lar, l, r, 1), [c \in 1..NC(L) |-> IF c = 2 THEN RDiv(Pr(L, l), L.msq) ELSE Zero], HllemScale(L, l, r, 1))
Scales == \A lar \in Lars : LET f == HllemFlux(L, lar, l, r, 1) s == HllemScale(L, l, r, 1) IN \A c \in 1..NC(L) : RLeq(RAbs(f[c]), RMul(4, s[c]))
=============================================================================
