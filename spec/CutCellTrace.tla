---------------------------- MODULE CutCellTrace ----------------------------
(* What the parts of the code that deal with cut cells return, against module *)
(* CutCell.                                                                   *)
EXTENDS CutCell, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
L == Traces[tid].cfg
Tol == "1e-11"
WallTol == "4e-6"   \* the exact Riemann solver iterates up to 1e-7
cl(name, ok) == IF ok THEN {} ELSE {<<"C28", name>>}
Near(x, y, scale) == RWithin(x, y, RMul(Tol, scale))
NearV(v, w, scale) == Len(v) = Len(w) /\ \A k \in DOMAIN w : Near(v[k], w[k], scale)
SameV(v, w) == Len(v) = Len(w) /\ \A k \in DOMAIN w : REq(v[k], w[k])
Nat0(v) == \A k \in DOMAIN v : REq(v[k], Zero)
\* lengths that occur in cell i of a grid with spacing h
Far(i, h) == RSum([k \in DOMAIN h |-> RMul(RAdd(RAbs(i[k]), 3), h[k])])
Lo(a, b) == IF a < b THEN b ELSE a
Hi(a, b) == IF a < b THEN a ELSE b
Grow0(bx, d, lo, hi) == <<[bx[1] EXCEPT ![d] = @ - lo], [bx[2] EXCEPT ![d] = @ + hi]>>
Meet(a, b) == <<[k \in DOMAIN a[1] |-> Lo(a[1][k], b[1][k])], [k \in DOMAIN a[1] |-> Hi(a[2][k], b[2][k])]>>
BoxOf(c) == c
AbsSum(v) == RSum([k \in DOMAIN v |-> RAbs(v[k])])

StepOk(e) ==
  LET r == RDiv(e.dt, e.dx) b == e.b
      m == RMax(One, RDiv(One, RMax(e.alpha, "1e-300")))
      sc == RAbs(e.q) (+) (RMul(r, m) (.) ((AbsSum(e.fL) (+) AbsSum(e.fR)) (+) RAbs(e.fB)))
      want == IF ~e.cut THEN Regular(e.q, r, e.fL[2], e.fR[2])
              ELSE IF e.m = 0 THEN StepCut(e.q, r, e.alpha, e.c, b, e.shL, e.shR, e.fL, e.fR, e.fB)
              ELSE StepBalance(e.q, r, e.alpha, b, e.fL, e.fR, e.fB) IN
  RWithin(e.o, want, RMul(Tol, sc))

StateNear(o, w) ==
  LET v == RMax(RSqrt(Pr(L, w) (/) w[1]), Snd(L, w)) s == w[1] (.) (v (+) RSqrt(Norm2(Vel(L, w)))) IN
  /\ Len(o) = Len(w)
  /\ RWithin(o[1], w[1], RMul(WallTol, w[1]))
  /\ \A d \in 1..L.n : RWithin(o[1 + d], w[1 + d], RMul(WallTol, s))
  /\ \A k \in (L.n + 2)..Len(w) : RWithin(o[k], w[k], RMul(WallTol, w[k]))

WallClauses(e) ==
  LET f == Flux(L, e.ref, e.d) fs == FluxScale(L, e.ref, e.d)
      p == (e.o[1 + e.d] (-) f[1 + e.d]) (+) Pr(L, e.ref)
      rest == \A k \in DOMAIN f : k = 1 + e.d \/ RWithin(e.o[k], f[k], RMul(Tol, fs[k]))
      slack == (fs[1 + e.d] (+) Pr(L, e.ref)) IN
  cl("the wall carries what its reference state carries", Len(e.o) = Len(f) /\ rest)
  \cup (IF ~e.mask
        THEN LET w == WallPressure(L, e.q, e.nrm) IN
             cl("the pressure on the wall", RWithin(p, w, RMul(WallTol, w) (+) RMul(Tol, slack)))
        ELSE LET r == InWallFrame(L, e.q, e.nrm) v == Snd(L, e.mir) (+) Snd(L, r)
                 t == RMul(WallTol, RDiv(p, v)) IN
             cl("the pressure on a wall with a given mirror state",
                /\ RLess(Zero, p)
                /\ RLeq(RAbs(X!Gap(L, e.mir, r, 1, p)), (RMul(WallTol, v) (.) "4") (+) RMul(RMul("1e-10", slack), v (/) p))))

Broken(e) ==
  CASE e.a = "share" ->
       LET s == Shares(e.bL, e.bM, e.bR) IN
       cl("shares of a face", NearV(e.o, s, One))
       \cup cl("relative shares of a face", NearV(e.r, Relative(s, e.bM), RDiv(One, RMax(e.bM, "1e-300"))))
    [] e.a = "outside" -> cl("something else than the result has changed", e.n = 0)
    [] e.a = "cut" -> cl("which cells are cut", e.o = Cut(e.alpha, e.f))
    [] e.a = "normal" -> cl("normal of a wall", SameV(e.o, [d \in DOMAIN e.raw |-> RNeg(e.raw[d])]))
    [] e.a = "same" -> cl("what is read is not what is stored", SameV(e.o, e.q))
    [] e.a = "place" -> cl("place of a centroid", NearV(e.o, Place(e.i, e.rel, e.h), Far(e.i, e.h)))
    [] e.a = "single" -> cl("centroid of a strip shaded by one cell", NearV(e.o, Strip(e.i, e.rel, e.h, e.d, e.left, e.up), Far(e.i, e.h)))
    [] e.a = "unshielded" -> cl("centroid of the open part of a face", NearV(e.o, OpenCentre(e.i, e.h, e.d, e.M, e.L, e.R), Far(e.i, e.h)))
    [] e.a = "points" ->
       cl("integration points", Len(e.o) = Len(e.w) /\ \A k \in DOMAIN e.w :
            REq(e.o[k].v, e.w[k].v) /\ SameV(e.o[k].x, e.w[k].x) /\ e.o[k].i = e.w[k].i)
       \cup cl("integration points belong to another cell", e.iB = e.i)
       \cup cl("wall at integration points", NearV(e.xB, Place(e.i, e.rel, e.h), Far(e.i, e.h)))
    [] e.a = "centroid" -> cl("centroid of integration points", NearV(e.o, CentreOf(e.v, e.x), "4"))
    [] e.a = "range" ->
       LET f == e.f c == e.c
           reach == Grow0(<<f[1], [f[2] EXCEPT ![e.d] = @ - 1]>>, e.d, e.w, e.w)  \* cells that the faces need
           oc == Meet(c, reach)
           of == <<[oc[1] EXCEPT ![e.d] = @ + e.w], [oc[2] EXCEPT ![e.d] = @ - e.w + 1]>> IN
       cl("cells within reach of the faces", e.oc = oc) \cup cl("faces whose cells are there", e.of = of)
    [] e.a = "kbn" ->
       LET fL == Shaded(FromLeft(e.c[1]), e.f, e.fB[1]) fR == Shaded(FromRight(e.c[2]), e.f, e.fB[2])
           sc == RAbs(e.f) (+) (RAbs(e.fB[1]) (+) RAbs(e.fB[2])) IN
       cl("flux of a part shaded by the left cell", Near(e.o[2], fL, sc))
       \cup cl("flux of a part shaded by the right cell", Near(e.o[3], fR, sc))
       \cup cl("stabilised flux", Near(e.o[1], Mean(e.w, e.f, fL, fR), RMul(2, sc)))
    [] e.a = "mix" -> cl("stabilised flux", Near(e.o[1], Mean(e.w, e.f, e.o[2], e.o[3]), RAbs(e.f) (+) (RAbs(e.o[2]) (+) RAbs(e.o[3]))))
    [] e.a = "update" -> cl(IF ~e.cut THEN "the update of a regular cell" ELSE "the update of a cut cell", StepOk(e))
    [] e.a = "reference" ->
       cl("reference state at the wall", ~StaysInTouch(L, e.q, e.nrm) \/ StateNear(e.o, AtWall(L, e.q, e.nrm)))
    [] e.a = "wall" -> WallClauses(e)
    [] e.a = "face" ->
       IF ~e.open THEN cl("flux through a closed face", Nat0(e.o))
       ELSE LET i == EinfeldtInner(L, e.q, e.q2, e.d) o == EinfeldtOuter(L, e.q, e.q2, e.d)
                Is(s) == Close(e.o, HllFlux(L, e.q, e.q2, e.d, s), HllScale(L, e.q, e.q2, e.d, s), Tol) IN
            cl("flux through an open face", Is(i) \/ Is(o))
    [] e.a = "step" ->
       LET sp(k, outer) == Fastest(IF outer THEN EinfeldtOuter(L, e.q[k][1], e.q[k][2], e.d) ELSE EinfeldtInner(L, e.q[k][1], e.q[k][2], e.d))
           Le == \A k \in DOMAIN e.q : RLeq(RMul(e.o, sp(k, FALSE)), RMul(e.dx, "1.0000000001"))
           Eq == \E k \in DOMAIN e.q : RLeq(RMul(e.dx, "0.9999999999"), RMul(e.o, sp(k, TRUE))) IN
       cl("stable step between open faces", IF e.q = <<>> THEN e.o = "inf" \/ RLeq("1e300", e.o) ELSE Le /\ Eq)
    [] OTHER -> cl("the run ends in " \o e.a, FALSE)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Next == l <= Len(Ev) /\ l' = l + 1 /\ tid' = tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
