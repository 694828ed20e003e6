------------------------------ MODULE CutCell ------------------------------
(* Cells of a regular grid that are cut by solid walls.                       *)
(*                                                                            *)
(* A face leaves open the fraction b of itself.  A cell that is cut shades     *)
(* the part of a face that its other side does not continue: of the middle    *)
(* face bM, between faces bL and bR one cell further, the rest is open across  *)
(* both cells.  Fluxes at shaded parts are mixed with the flux of the wall so  *)
(* that cells of any size can be advanced with the time step of full cells.    *)
(* The wall itself reflects: its flux is the pressure the gas has on it, and   *)
(* what a reference state, in balance with the wall, would carry across.       *)
EXTENDS RiemannFlux
X == INSTANCE ExactRiemann

Half == "0.5"
One == "1"
Clamp(x) == RMax(Zero, RMin(One, x))

-----------------------------------------------------------------------------
\* Shares of a face: open across both cells, shaded by the cell to the left,
\* by the cell to the right, by both
Shares(bL, bM, bR) ==
  LET dl == RMax(Zero, bM (-) bL) dr == RMax(Zero, bM (-) bR) ds == RMin(dl, dr) IN
  <<bM (-) RMax(dl, dr), dl (-) ds, dr (-) ds, ds>>
Relative(s, bM) == [k \in 1..4 |-> IF RLess(Zero, bM) THEN s[k] (/) bM ELSE Zero]
\* a cell with open volume alpha and faces f
Cut(alpha, f) == RLess(Zero, alpha) /\ (RLess(alpha, One) \/ \E k \in DOMAIN f : RLess(f[k], One))

-----------------------------------------------------------------------------
\* Places.  Positions inside cell i are given relative to its centre, in cells.
Place(i, rel, h) == [d \in DOMAIN h |-> RMul(RAdd(i[d], Half) (+) rel[d], h[d])]
\* of the part of a face that one cell shades: the middle of the strip from
\* the wall (at rel, in the shading cell) to the face, and the middle of as
\* long a strip beyond: it starts at the face and is one cell long
Strip(i, rel, h, d, left, up) ==
  LET x == Place(i, rel, h)
      a == IF left THEN Half (-) rel[d] ELSE Half (+) rel[d]   \* from the wall to the face
      inner == a (/) "2" outer == a (+) Half
      s == IF left THEN IF up THEN outer ELSE inner
           ELSE RNeg(IF up THEN inner ELSE outer) IN
  [k \in DOMAIN h |-> IF k = d THEN x[k] (+) (s (.) h[k]) ELSE x[k]]
\* the middle of what face i (normal to d) and its neighbours leave open; M, L
\* and R are intervals along the face
OpenPart(M, L, R) == <<RMax(M[1], RMax(L[1], R[1])), RMin(M[2], RMin(L[2], R[2]))>>
OpenCentre(i, h, d, M, L, R) ==
  LET o == OpenPart(M, L, R) IN
  [k \in DOMAIN h |-> IF k = d THEN RMul(i[k], h[k]) ELSE RMul(RAdd(i[k], RDiv(o[1] (+) o[2], 2)), h[k])]
\* centre of mass of pieces with volumes v at places x, up to the first of no volume
Pieces(v) == CHOOSE n \in 0..Len(v) : (\A k \in 1..n : RLess(Zero, v[k])) /\ (n < Len(v) => ~RLess(Zero, v[n + 1]))
CentreOf(v, x) ==
  LET n == Pieces(v) m == RSum([k \in 1..n |-> v[k]]) IN
  [d \in 1..Len(x[1]) |-> RDiv(RSum([k \in 1..n |-> v[k] (.) x[k][d]]), m)]

-----------------------------------------------------------------------------
\* Stabilised fluxes.  f is the flux of the open face, fB the flux of the wall
\* in the cell; the wall is a fraction t of a cell away from the face.
Shaded(t, f, fB) == (Clamp(t) (.) f) (+) ((One (-) Clamp(t)) (.) fB)
FromLeft(c) == Half (-) c      \* wall at c in the cell left of the face
FromRight(c) == Half (+) c
\* mean over the face, w: relative shares (open, left, right)
Mean(w, f, fL, fR) == (w[1] (.) f) (+) ((w[2] (.) fL) (+) (w[3] (.) fR))

-----------------------------------------------------------------------------
\* One step of a cell, r is dt / dx.  Faces 1 (left) and 2 (right): open
\* fraction b, shares s of the face as in Shares, fluxes f: mean, open part,
\* part shaded from the left, part shaded from the right.  alpha is the open
\* volume, c the position of the wall, fB its flux.
Regular(q, r, fl, fr) == q (+) (r (.) (fl (-) fr))
StepCut(q, r, alpha, c, b, sL, sR, fL, fR, fB) ==
  IF ~RLess(Zero, alpha) THEN Zero
  ELSE IF REq(b[1], b[2]) THEN Regular(q, r, fL[1], fR[1])
  ELSE IF RLess(b[2], b[1]) THEN
    (q (+) (r (.) (((sL[1] (/) alpha) (.) (fL[2] (-) fR[1])) (+) ((sL[2] (/) alpha) (.) (fL[3] (-) fR[1])))))
      (+) (r (.) (Clamp((sL[3] (.) FromRight(c)) (/) alpha) (.) (fL[2] (-) fB)))
  ELSE
    (q (+) (r (.) (((sR[1] (/) alpha) (.) (fL[1] (-) fR[2])) (+) ((sR[3] (/) alpha) (.) (fL[1] (-) fR[4])))))
      (+) (r (.) (Clamp((sR[2] (.) FromLeft(c)) (/) alpha) (.) (fB (-) fR[2])))
\* the balance of the cell: what crosses the open faces and the wall
Balance(q, r, alpha, b, fl, fr, fB) ==
  q (+) ((r (/) alpha) (.) (((b[1] (.) fl) (-) (b[2] (.) fr)) (-) ((b[1] (-) b[2]) (.) fB)))
StepBalance(q, r, alpha, b, fL, fR, fB) ==
  IF REq(b[1], b[2]) THEN Regular(q, r, fL[1], fR[1]) ELSE Balance(q, r, alpha, b, fL[1], fR[1], fB)

-----------------------------------------------------------------------------
\* The wall with unit normal nrm pointing into the gas.
Un(L, q, nrm) == RSum([d \in 1..L.n |-> Vel(L, q)[d] (.) nrm[d]])
\* the gas is brought to rest by a shock or by a rarefaction: pressure at the wall
WallPressure(L, q, nrm) ==
  LET u == Un(L, q, nrm) a == Snd(L, q) IN
  IF RLess(u, Zero)
  THEN LET k == RDiv(RAdd(L.gamma, 1), 4) IN
       Pr(L, q) (+) ((q[1] (.) RSq(u)) (.) (k (+) RSqrt(RSq(k) (+) RSq(a (/) u))))
  ELSE Pr(L, q) (.) RPow(RSub(1, RMul(RDiv(RSub(L.gamma, 1), 2), u (/) a)), RDiv(RMul(2, L.gamma), RSub(L.gamma, 1)))
\* no vacuum opens at the wall
StaysInTouch(L, q, nrm) == RLess(RMul(Un(L, q, nrm), RSub(L.gamma, 1)), RMul(2, Snd(L, q)))
\* conserved variables of the gas at the wall: it keeps its tangential motion
AtWall(L, q, nrm) ==
  LET p == WallPressure(L, q, nrm) rho == X!Behind(L, q, p) u == Un(L, q, nrm)
      m == [d \in 1..L.n |-> rho (.) (Vel(L, q)[d] (-) (u (.) nrm[d]))] IN
  <<rho>> \o m \o <<EnergyOf(L, rho, m, p)>> \o <<p, RSqrt(Snd2(L, rho, p))>>
\* flux at the wall in direction d, given the pressure there
WallFlux(L, ref, d, p) ==
  LET f == Flux(L, ref, d) IN [f EXCEPT ![1 + d] = @ (+) (p (-) Pr(L, ref))]
\* q as seen by the wall: only its normal motion counts
InWallFrame(L, q, nrm) ==
  LET u == Un(L, q, nrm) m == [d \in 1..L.n |-> IF d = 1 THEN q[1] (.) u ELSE Zero] IN
  <<q[1]>> \o m \o <<EnergyOf(L, q[1], m, Pr(L, q))>> \o <<Pr(L, q), Snd(L, q)>>
=============================================================================
