--------------------------- MODULE MCReconstruction ---------------------------
(* Limiters on integers, second order advection on all small profiles, and the *)
(* reconstructions of gases on a grid of states.                               *)
EXTENDS Reconstruction, TLC
CONSTANTS K, Nus, Rhos, Us, Ps, Msqs, Dims
VARIABLES kind, a, b
vars == <<kind, a, b>>
Law(n, m) == [law |-> "mix", n |-> n, ns |-> 1, np |-> 1, gamma |-> "1.4", rspec |-> "1", msq |-> m, g |-> "0", vel |-> <<>>]
Limiters == {"minmod", "vanleer", "mean", "central", "none", "zero"}
Tvd == {"minmod", "vanleer", "mean", "zero"}
Prims(n) == {<<r>> \o [d \in 1..n |-> IF d = 1 THEN u ELSE "0.25"] \o <<p, "0.25", "-2">> : r \in Rhos, u \in Us, p \in Ps}
Init == \/ kind = "profile" /\ a \in [1..2 -> 0..K] /\ b = <<>>
        \/ kind = "gas" /\ a \in {<<n, m, w>> : n \in Dims, m \in Msqs, w \in UNION {Prims(k) : k \in Dims}} /\ Len(a[3]) = a[1] + 4 /\ b = <<>>
Next == /\ b = <<>> /\ UNCHANGED <<kind, a>>
        /\ IF kind = "profile" THEN b' \in [1..2 -> 0..K] ELSE \E x \in Prims(a[1]), y \in Prims(a[1]) : b' = <<x, y>>
Spec == Init /\ [][Next]_vars
Done == b # <<>>
Eps == "1e-26"
Near(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : RWithin(x[i], y[i], RMul(Eps, RMax("1", RMax(RAbs(x[i]), RAbs(y[i])))))
Near1(x, y) == RWithin(x, y, RMul(Eps, RMax("1", RMax(RAbs(x), RAbs(y)))))

\* ------------------------------------------------------------ limiters
X == a[1] - a[2]
Y == b[1] - b[2]
LimiterLaws == Done /\ kind = "profile" =>
  \A k \in Limiters :
    /\ Near1(Slope(k, X, Y), Slope(k, Y, X))                                   \* symmetric
    /\ Near1(Slope(k, -X, -Y), RNeg(Slope(k, X, Y)))                           \* odd
    /\ Near1(Slope(k, RMul(3, X), RMul(3, Y)), RMul(3, Slope(k, X, Y)))        \* homogeneous
    /\ k # "zero" => Near1(Slope(k, X, X), X)                                  \* exact for straight lines
    /\ k \in Tvd => LET s == Slope(k, X, Y) IN
         IF X * Y <= 0 THEN REq(s, 0)
         ELSE RLeq(0, s (.) X) /\ RLeq(RAbs(s), RMul(2, RMin(RAbs(X), RAbs(Y)))) /\ RLeq(RAbs(s), RMax(RAbs(X), RAbs(Y)))
    /\ RLeq(RAbs(Slope("minmod", X, Y)), RAbs(Slope("mean", X, Y)) (+) Eps)
    /\ RLeq(RAbs(Slope("minmod", X, Y)), RAbs(Slope("vanleer", X, Y)) (+) Eps)

\* -------------------------------------- linear advection with four cells
AdvLaw == [law |-> "adv", n |-> 1, vel |-> <<"1">>]
U4 == <<a[1], a[2], b[1], b[2]>>
\* the new value of the third cell from the states handed to the upwind flux
Advected(k, nu) ==
  LET U == [i \in 1..4 |-> <<U4[i]>>]
      r == Rec(AdvLaw, "cons", U[3], Gradient(AdvLaw, k, "cons", SubSeq(U, 2, 4), 1, 1), nu, 1, 1, TRUE)
      l == Rec(AdvLaw, "cons", U[2], Gradient(AdvLaw, k, "cons", SubSeq(U, 1, 3), 1, 1), nu, 1, 1, TRUE) IN
  U4[3] (-) (nu (.) (r[1] (-) l[1]))
\* no new extrema up to the CFL limit
MaximumPrinciple == Done /\ kind = "profile" =>
  \A k \in Tvd, nu \in Nus :
    LET v == Advected(k, nu) IN
    /\ RLeq(RMin(U4[2], U4[3]) (-) Eps, v) /\ RLeq(v, RMax(U4[2], U4[3]) (+) Eps)
ExactAtCflOne == Done /\ kind = "profile" => \A k \in Limiters : Near1(Advected(k, "1"), U4[2])

\* ------------------------------------------------------------------ gases
L == Law(a[1], a[2])
Q(w) == FromPrim(L, w)
Mid == Q(a[3])
Stencil == <<Q(b[1]), Mid, Q(b[2])>>
\* a gentle slope
G(k, m) == LET g == Gradient(L, k, m, Stencil, "1", 1) IN [i \in DOMAIN g |-> RMul("0.03125", g[i])]
Unit(d) == [i \in 1..L.n |-> IF i = d THEN "1" ELSE "0"]
Mir(q) == ReflectState(q, L.n, Unit(1))
OkRec(m, g) == RecAdmissible(L, m, Mid, g, "0.1", "1", 1, TRUE)
Gas == Done /\ kind = "gas"
ConstantsStay == Gas => \A m \in {"cons", "prim", "char"}, up \in {TRUE, FALSE} :
  Near(Rec(L, m, Mid, Gradient(L, "minmod", m, <<Mid, Mid, Mid>>, "1", 1), "0.1", "1", 1, up), Mid)
CharInverse == Gas => LET dw == Diff(b[1], a[3], "1") IN
  Near(FromChar(L, Mid, 1, ToChar(L, Mid, 1, dw, FALSE)), dw)
\* both are the same linear system
CharIsPrim == Gas => LET gp == G("none", "prim") gc == G("none", "char") IN
  \A up \in {TRUE, FALSE} : Near(Rec(L, "char", Mid, gc, "0.1", "1", 1, up), Rec(L, "prim", Mid, gp, "0.1", "1", 1, up))
MirrorImages == Gas => \A m \in {"cons", "prim", "char"} :
  LET g == G("vanleer", m)
      s == <<Mir(Stencil[3]), Mir(Mid), Mir(Stencil[1])>>
      h0 == Gradient(L, "vanleer", m, s, "1", 1)
      h == [i \in DOMAIN g |-> RMul("0.03125", h0[i])] IN
  OkRec(m, g) => Near(Mir(Rec(L, m, Mir(Mid), h, "0.1", "1", 1, FALSE)), Rec(L, m, Mid, g, "0.1", "1", 1, TRUE))
Turn(q) == WithVector(q, L.n, [i \in 1..L.n |-> q[1 + (IF i = 1 THEN L.n ELSE i - 1)]])
AxesAlike == Gas /\ L.n > 1 => \A m \in {"cons", "prim", "char"} :
  LET s == [i \in 1..3 |-> Turn(Stencil[i])]
      h0 == Gradient(L, "minmod", m, s, "1", 2)
      h == [i \in 1..NC(L) |-> RMul("0.03125", h0[i])] g == G("minmod", m) IN
  OkRec(m, g) => Near(Rec(L, m, Turn(Mid), h, "0.1", "1", 2, TRUE), Turn(Rec(L, m, Mid, g, "0.1", "1", 1, TRUE)))
\* half a step of the conservative predictor changes both faces by the same amount
SamePredictor == Gas => LET g == G("minmod", "cons") c(up) == Cons(L, Rec(L, "cons", Mid, g, "0.1", "1", 1, up))
                            e == ConsEnds(L, Mid, g, "1") IN
  OkRec("cons", g) => Near([i \in 1..NC(L) |-> c(TRUE)[i] (-) e[2][i]], [i \in 1..NC(L) |-> c(FALSE)[i] (-) e[1][i]])
ScalesBound == Gas => \A m \in {"prim", "char"} :
  LET g == G("minmod", m) r == ToPrim(L, Rec(L, m, Mid, g, "0.1", "1", 1, TRUE)) s == RecScale(L, m, Mid, g, "0.1", "1", 1) IN
  \A i \in 1..NC(L) : RLeq(RAbs(r[i]), RMul("1.0000001", s[i]))
=============================================================================
