----------------------------- MODULE MCGeometry -----------------------------
(* Closed polygons and cones on a lattice: counting crossed edges agrees     *)
(* with the orientation for triangles, the edges may be taken in chunks of   *)
(* any size, values of neighbours differ by at most their distance, and the  *)
(* set operations are those of sets.                                         *)
EXTENDS Geometry, TLC
CONSTANTS N, ChunkSize
VARIABLES poly, p, phase
vars == <<poly, p, phase>>
Lattice == (0..N) \X (0..N)
Triangles == {<<a, b, c, a>> : a, b, c \in Lattice}
Area2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
\* points in the middle between lattice points and on them, doubled
Points == (-1..(2 * N + 1)) \X (-1..(2 * N + 1))
Init == poly \in {t \in Triangles : Area2(t[1], t[2], t[3]) # 0} /\ p = <<>> /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ p' \in Points /\ UNCHANGED poly
Spec == Init /\ [][Next]_vars
Dbl(a) == <<2 * a[1], 2 * a[2]>>
Xs == [i \in DOMAIN poly |-> 2 * poly[i][1]]
Ys == [i \in DOMAIN poly |-> 2 * poly[i][2]]
At(q) == PolygonValue(Xs, Ys, q)
Strictly(q) == LET a == Dbl(poly[1]) b == Dbl(poly[2]) c == Dbl(poly[3])
                   s == {Area2(a, b, q), Area2(b, c, q), Area2(c, a, q)} IN (\A v \in s : v > 0) \/ (\A v \in s : v < 0)
OnEdge(q) == REq(At(q), "0")
Orientation == phase = 1 => OnEdge(p) \/ (Strictly(p) <=> RLess("0", At(p)))
Lipschitz == phase = 1 => \A d \in {<<1, 0>>, <<0, 1>>} : RLeq(RAbs(At(p) (-) At(<<p[1] + d[1], p[2] + d[2]>>)), "1.0000000001")
Sets == phase = 1 =>
  LET a == [k |-> "polygon", xs |-> Xs, ys |-> Ys]
      h == [k |-> "cone", base |-> <<0, 0, 0>>, radius |-> N, height |-> 2 * N, inside |-> FALSE]
      u == [k |-> "union", gs |-> <<a, h>>] n == [k |-> "invert", g |-> u] IN
  /\ RLess("0", Value(u, p)) <=> RLess("0", Value(a, p)) \/ RLess("0", Value(h, p))
  /\ RLess("0", Value(n, p)) <=> RLess(Value(a, p), "0") /\ RLess(Value(h, p), "0")
\* all edges are seen once when they are taken in chunks, for any number of them
Chunks(m) == LET full == IF m <= 0 THEN 0 ELSE (m - 1) \div ChunkSize IN
  [i \in 1..(full + 1) |-> IF i <= full THEN ChunkSize ELSE m - full * ChunkSize]
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
EveryEdge == \A m \in 0..40 : SumOf(Chunks(m)) = m /\ \A i \in DOMAIN Chunks(m) : Chunks(m)[i] \in 0..ChunkSize
=============================================================================
