----------------------------- MODULE MCCutCell -----------------------------
(* A cut cell with its two faces, its neighbours' walls and the faces beyond, *)
(* and gas at a wall, on grids of values.                                     *)
EXTENDS CutCell, TLC
CONSTANTS Fracs, Fs, Bs, Cs, Alphas, Rhos, Us, Ps, Gammas, Normals
VARIABLES b, x, w   \* four faces, the rest of the cell, gas at a wall
vars == <<b, x, w>>
Law(n, g) == [law |-> "gas", n |-> n, ns |-> 0, np |-> 0, gamma |-> g, rspec |-> "1", msq |-> "1", g |-> "0", vel |-> <<>>]
Some2 == {<<"1", "0">>, <<"-0.6", "0.8">>, <<"0", "1">>}
Some3 == Some2 \cup {<<"-1">>, <<"0.28", "-0.96">>, <<"0.48", "0.64", "-0.6">>}
None == [q |-> <<>>]
Nothing == [f |-> <<>>]
Init == \/ b \in [1..4 -> Fracs] /\ x = Nothing /\ w = None
        \/ b = <<>> /\ x = Nothing /\ \E nr \in Normals, g \in Gammas : w = [q |-> <<>>, n |-> nr, L |-> Law(Len(nr), g)]
Next == /\ x = Nothing /\ w.q = <<>>
        /\ IF b # <<>>
           THEN x' \in [f : [1..2 -> Fs], fB : [1..3 -> Bs], c : Cs, alpha : Alphas] /\ UNCHANGED w
           ELSE (\E r \in Rhos, u \in [1..w.L.n -> Us], p \in Ps : w' = [w EXCEPT !.q = FromPrim(w.L, <<r>> \o u \o <<p>>)]) /\ UNCHANGED x
        /\ UNCHANGED b
Spec == Init /\ [][Next]_vars

Eps == "1e-25"
Same(u, v) == RWithin(u, v, RMul(Eps, RMax(One, RMax(RAbs(u), RAbs(v)))))
Le(u, v) == RLeq(u, v (+) RMul(Eps, RMax(One, RAbs(v))))
Cell == x # Nothing
S1 == TLCEval(Shares(b[1], b[2], b[3]))
S2 == TLCEval(Shares(b[2], b[3], b[4]))
Dt == "0.125"

\* the shares of a face
SharesOk == b # <<>> =>
  /\ \A s \in {S1, S2} : \A k \in 1..4 : RLeq(Zero, s[k])
  /\ REq(RSum(S1), b[2]) /\ REq(RSum(S2), b[3])
  /\ REq(S1[1], RMin(b[1], RMin(b[2], b[3])))
  /\ LET m == Shares(b[3], b[2], b[1]) IN REq(m[1], S1[1]) /\ REq(m[2], S1[3]) /\ REq(m[3], S1[2]) /\ REq(m[4], S1[4])
  \* what the left (right) cell leaves open
  /\ REq((S1[1] (+) S1[3]), RMin(b[1], b[2])) /\ REq((S1[1] (+) S1[2]), RMin(b[3], b[2]))

\* fluxes of both faces of the cell: mean, open, shaded from the left and right;
\* the walls of the neighbours and of the cell are at c
Face(s, bM, f, fBl, fBr) ==
  LET fl == Shaded(FromLeft(x.c), f, fBl) fr == Shaded(FromRight(x.c), f, fBr) IN
  <<Mean(Relative(s, bM), f, fl, fr), f, fl, fr>>
F1 == TLCEval(Face(S1, b[2], x.f[1], x.fB[1], x.fB[2]))
F2 == TLCEval(Face(S2, b[3], x.f[2], x.fB[2], x.fB[3]))
NotDouble(s) == REq(s[4], Zero)
MinOf(T) == CHOOSE m \in T : \A y \in T : RLeq(m, y)
MaxOf(T) == CHOOSE m \in T : \A y \in T : RLeq(y, m)
\* a mean of the fluxes of face and walls; a uniform flow stays as it is
MeanOk == Cell /\ NotDouble(S1) /\ RLess(Zero, b[2]) =>
  LET T == {x.f[1], x.fB[1], x.fB[2]} IN Le(MinOf(T), F1[1]) /\ Le(F1[1], MaxOf(T))
\* with the wall at the face there is nothing but the face; with the wall a
\* whole cell away neither is there anything but the flux of the face
Extremes == Cell => /\ Same(Shaded("1", x.f[1], x.fB[1]), x.f[1]) /\ Same(Shaded("0", x.f[1], x.fB[1]), x.fB[1])
                    /\ Same(Shaded("7", x.f[1], x.fB[1]), x.f[1])
Step == TLCEval(StepCut("0.5", Dt, x.alpha, x.c, <<b[2], b[3]>>, S1, S2, F1, F2, x.fB[2]))
\* the step is the balance over faces and wall
NotClamped == RLess((RMax(S1[3], S2[2]) (.) RMax(FromLeft(x.c), FromRight(x.c))) (/) x.alpha, One)
                /\ RLeq(RAbs(x.c), Half)
StepOk == Cell /\ NotDouble(S1) /\ NotDouble(S2) /\ NotClamped /\ ~REq(b[2], b[3]) =>
  Same(Step, Balance("0.5", Dt, x.alpha, <<b[2], b[3]>>, F1[1], F2[1], x.fB[2]))
Uniform == Cell /\ NotDouble(S1) /\ NotDouble(S2) /\ RLess(Zero, b[2]) /\ RLess(Zero, b[3]) /\ {x.f[1], x.f[2], x.fB[1], x.fB[2], x.fB[3]} = {x.f[1]} =>
  Same(Step, "0.5") /\ Same(StepBalance("0.5", Dt, x.alpha, <<b[2], b[3]>>, F1, F2, x.fB[2]), "0.5")
\* the mirror image of the cell does the same, with opposite fluxes
Neg4(f) == <<RNeg(f[1]), RNeg(f[2]), RNeg(f[4]), RNeg(f[3])>>
Flip(s) == <<s[1], s[3], s[2], s[4]>>
MirrorImage == Cell => Same(Step, StepCut("0.5", Dt, x.alpha, RNeg(x.c), <<b[3], b[2]>>, Flip(S2), Flip(S1), Neg4(F2), Neg4(F1), RNeg(x.fB[2])))
\* two cells that share a face exchange what crosses it
Exchange == Cell /\ RLess(Zero, b[3]) =>
  LET g == F2[1] h == x.fB[3]
      q1 == StepBalance("0.5", Dt, x.alpha, <<b[2], b[3]>>, F1, F2, x.fB[2])
      q2 == Balance("2", Dt, "0.5", <<b[3], b[4]>>, F2[1], g, h) IN
  ~REq(b[2], b[3]) =>
    Same((x.alpha (.) (q1 (-) Half)) (+) RMul(Half, q2 (-) "2"),
         RMul(Dt, (((b[2] (.) F1[1]) (-) (b[4] (.) g)) (-) ((b[2] (-) b[3]) (.) x.fB[2])) (-) ((b[3] (-) b[4]) (.) h)))
\* the strip from the wall in cell i ends at the face; the next begins there
Strips == Cell => \A left \in BOOLEAN :
  LET h == <<"2", "0.25">> i == <<3, -1>> rel == <<x.c, "0.125">>
      in == Strip(i, rel, h, 1, left, ~left) out == Strip(i, rel, h, 1, left, left)
      wall == Place(i, rel, h) face == RMul(IF left THEN 4 ELSE 3, h[1]) IN
  /\ Same(in[1], RDiv(wall[1] (+) face, 2))
  /\ Same(out[1], IF left THEN face (+) RDiv(h[1], 2) ELSE face (-) RDiv(h[1], 2))
  /\ Same(in[2], wall[2]) /\ Same(out[2], wall[2])

-----------------------------------------------------------------------------
Gas == w.q # <<>> /\ StaysInTouch(w.L, w.q, w.n)
P == TLCEval(WallPressure(w.L, w.q, w.n))
A == TLCEval(AtWall(w.L, w.q, w.n))
U == Un(w.L, w.q, w.n)
\* exp and log are good to 1e-13 or so
Rough(u, v) == RWithin(u, v, RMul("1e-10", RMax(One, RMax(RAbs(u), RAbs(v)))))
WallOk == Gas =>
  LET L == w.L q == InWallFrame(L, w.q, w.n) m == [q EXCEPT ![2] = RNeg(@)] IN
  /\ RLess(Zero, P)
  /\ RLess(U, Zero) => RLess(Pr(L, w.q), P)
  /\ RLess(Zero, U) => RLess(P, Pr(L, w.q))
  /\ Rough(U (+) X!Curve(L, q, P), Zero)                 \* the gas comes to rest
  /\ Rough(X!Gap(L, m, q, 1, P), Zero)                   \* as where it meets its mirror image
  /\ Rough(Un(L, A, w.n), Zero)                          \* nothing passes the wall
  /\ Rough(PressureOf(L, SubSeq(A, 1, L.n + 2)), P)
  /\ \A d \in 1..L.n : Rough(Vel(L, A)[d] (-) Vel(L, w.q)[d], RNeg(U (.) w.n[d]))
  /\ RLeq(RDiv(Pr(L, w.q), RPow(w.q[1], L.gamma)), RMul(RDiv(P, RPow(A[1], L.gamma)), "1.0000000001"))  \* entropy does not decrease
\* its own reference state carries the pressure and no mass or energy across
WallFluxOk == Gas => LET L == w.L IN
  LET f(d) == WallFlux(L, A, d, P)
      n == [c \in 1..NC(L) |-> RSum([d \in 1..L.n |-> w.n[d] (.) f(d)[c]])] IN
  /\ Rough(n[1], Zero) /\ Rough(n[L.n + 2], Zero)
  /\ \A d \in 1..L.n : Rough(n[1 + d], P (.) w.n[d])
=============================================================================
