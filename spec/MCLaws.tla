------------------------------- MODULE MCLaws -------------------------------
(* The formulas of module Laws on a grid of states: changes of variables are *)
(* inverse to each other, fluxes are invariant under rotations and mirrors   *)
(* and homogeneous, isentropic changes keep entropy and enthalpy.            *)
EXTENDS Laws, TLC
CONSTANTS Rhos, Us, Ps, Gammas, Msqs
VARIABLES L, w
vars == <<L, w>>
Law(n, g, m) == [law |-> "mix", n |-> n, ns |-> 1, np |-> 1, gamma |-> g, rspec |-> "1", msq |-> m, g |-> "0", vel |-> <<>>]
States(n) == {<<r>> \o u \o <<p, y, "-2">> : r \in Rhos, u \in [1..n -> Us], p \in Ps, y \in {"0", "0.25"}}
Init == /\ \E n \in 1..3, g \in Gammas, m \in Msqs : L = Law(n, g, m) /\ w \in States(n)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
q == FromPrim(L, w)
Eps == "1e-30"
Same(a, b, eps) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RWithin(a[i], b[i], RMul(eps, RMax("1", RMax(RAbs(a[i]), RAbs(b[i])))))
Normal(n) == CASE n = 1 -> <<"-1">> [] n = 2 -> <<"0.6", "-0.8">> [] n = 3 -> <<"0.48", "0.64", "-0.6">>
Unit(n, d) == [i \in 1..n |-> IF i = d THEN "1" ELSE "0"]
\* a rotation that takes the normal to the first axis
Rot(n) == CASE n = 1 -> <<<<"1">>>>
            [] n = 2 -> <<<<"0.6", "-0.8">>, <<"0.8", "0.6">>>>
            [] n = 3 -> <<<<"0.48", "0.64", "-0.6">>, <<"-0.8", "0.6", "0">>, <<"0.36", "0.48", "0.8">>>>
Negative(v) == [i \in DOMAIN v |-> RNeg(v[i])]
Scaled(v, s) == [i \in DOMAIN v |-> RMul(s, v[i])]
NormalFlux(x) == LET n == Normal(L.n) IN [i \in 1..NC(L) |-> RSum([d \in 1..L.n |-> n[d] (.) Flux(L, x, d)[i]])]

RoundTrips == Same(ToPrim(L, q), w, Eps) /\ Same(FromCons(L, Cons(L, q)), q, Eps)
MirrorTwice == Same(ReflectState(ReflectState(q, L.n, Normal(L.n)), L.n, Normal(L.n)), q, Eps)
MirrorKeepsState == LET r == ReflectState(q, L.n, Normal(L.n)) IN
  Same(FromCons(L, Cons(L, r)), r, Eps) /\ Same(<<Dot(Mom(L, r), Normal(L.n))>>, <<RNeg(Dot(Mom(L, q), Normal(L.n)))>>, Eps)
MirrorFlux == \A d \in 1..L.n :
  Same(Flux(L, ReflectState(q, L.n, Unit(L.n, d)), d), Negative(ReflectState(Flux(L, q, d), L.n, Unit(L.n, d))), Eps)
RotationInvariance == L.n > 1 => LET r == RotateState(q, L.n, Rot(L.n)) IN
  /\ Same(FromCons(L, Cons(L, r)), r, Eps)
  /\ Same(Flux(L, r, 1), RotateState(NormalFlux(q), L.n, Rot(L.n)), Eps)
Homogeneous == \A d \in 1..L.n : Same(Flux(L, Scaled(q, "3"), d), Scaled(Flux(L, q, d), "3"), Eps)
\* scales bound the values
Scales == \A d \in 1..L.n : \A i \in 1..NC(L) : RLeq(RAbs(Flux(L, q, d)[i]), FluxScale(L, q, d)[i])
Kinetic == L.msq = "1" => LET k == ToKinetic(L, q) IN Same(FromKinetic(L, k, Vel(L, q)), q, Eps)
Isentropes == L.msq = "1" => \A p \in Ps :
  LET r == Isentropic(L, q, p)
      h(x) == RDiv(x[L.n + 2] (+) Pr(L, x), x[1]) IN
  /\ Same(<<Pr(L, r), RDiv(Pr(L, r), RPow(r[1], L.gamma))>>, <<p, RDiv(Pr(L, q), RPow(q[1], L.gamma))>>, "1e-12")
  /\ RLeq("0", IsentropicU2(L, q, p)) => Same(<<h(r)>>, <<h(q)>>, "1e-12")
  /\ Same(SubSeq(ToPrim(L, r), L.n + 3, L.n + 4), SubSeq(w, L.n + 3, L.n + 4), Eps)
  /\ LET rest == WithVelocity(L, q, Scaled(Vel(L, q), "0")) IN
     RLess(p, Pr(L, rest)) => Same(Expansion(L, rest, p, "1"), Isentropic(L, rest, p), "1e-12")
Velocities == L.msq = "1" => LET r == WithVelocity(L, q, Scaled(Vel(L, q), "2")) IN Same(FromCons(L, Cons(L, r)), r, Eps)
=============================================================================
