------------------------------ MODULE Geometry ------------------------------
(* Implicit geometries: functions of a point whose zeros are the boundary.   *)
(* A geometry is a tree; its leaves are polygons, cones, half spaces and     *)
(* bent tubes, its nodes unions, complements and motions.  Away from the     *)
(* nodes for unions the size of the value is the distance to the boundary.   *)
EXTENDS Num

RDot(p, q) == RSum([i \in DOMAIN p |-> p[i] (.) q[i]])
RMinus(p, q) == [i \in DOMAIN p |-> p[i] (-) q[i]]
RPlus(p, q) == [i \in DOMAIN p |-> p[i] (+) q[i]]
RTimes(k, p) == [i \in DOMAIN p |-> k (.) p[i]]
RNorm(p) == RSqrt(RDot(p, p))
Clamp01(t) == RMax("0", RMin("1", t))
\* distance of p to the segment from v to w
SegmentDistance(p, v, w) ==
  LET d == RMinus(w, v) len2 == RDot(d, d) IN
  IF REq(len2, "0") THEN RNorm(RMinus(p, v))
  ELSE LET t == Clamp01(RDot(RMinus(p, v), d) (/) len2) IN RNorm(RMinus(p, RPlus(v, RTimes(t, d))))
\* is the edge crossed by the ray from p to the left?
Crossed(p, v, w) ==
  /\ (RLess(v[2], p[2]) /\ RLeq(p[2], w[2])) \/ (RLess(w[2], p[2]) /\ RLeq(p[2], v[2]))
  /\ RLess(v[1] (+) (((p[2] (-) v[2]) (/) (w[2] (-) v[2])) (.) (w[1] (-) v[1])), p[1])
RECURSIVE LeastOf(_)
LeastOf(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], LeastOf(Tail(s)))
RECURSIVE GreatestOf(_)
GreatestOf(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], GreatestOf(Tail(s)))
RECURSIVE CountTrue(_)
CountTrue(s) == IF s = <<>> THEN 0 ELSE (IF s[1] THEN 1 ELSE 0) + CountTrue(Tail(s))
\* closed polygon with vertices xs, ys (the last repeats the first): positive inside
Inside(xs, ys, p) == CountTrue([i \in 1..(Len(xs) - 1) |-> Crossed(p, <<xs[i], ys[i]>>, <<xs[i + 1], ys[i + 1]>>)]) % 2 = 1
PolygonValue(xs, ys, p) ==
  LET d == LeastOf([i \in 1..(Len(xs) - 1) |-> SegmentDistance(p, <<xs[i], ys[i]>>, <<xs[i + 1], ys[i + 1]>>)]) IN
  IF Inside(xs, ys, p) THEN d ELSE RNeg(d)
\* cone along the first axis: in the half plane (l, r) it is a triangle
ConeValue(c, x) ==
  LET y == RMinus(x, c.base) p == <<y[1], RSqrt(RSq(y[2]) (+) RSq(y[3]))>>
      rim == <<"0", c.radius>> apex == <<c.height, "0">>
      d == RMin(SegmentDistance(p, <<"0", "0">>, rim), SegmentDistance(p, rim, apex))
      in == RLess("0", p[1]) /\ RLess(RDiv(p[1], c.height) (+) RDiv(p[2], c.radius), "1") IN
  IF in = c.inside THEN RNeg(d) ELSE d
HalfspaceValue(n, offset, x) == (RDot(n, x) (/) RNorm(n)) (-) offset
\* a tube around a chain of points in the plane that starts upwards and ends
\* downwards; its straight pieces meet in the bisecting planes
Unit(p) == LET n == RNorm(p) IN [i \in DOMAIN p |-> p[i] (/) n]
TubeValue(pts, radius, x) ==
  LET n == Len(pts)
      dir(i) == Unit(RMinus(pts[i + 1], pts[i]))
      normal(i) == IF i = 1 THEN <<"0", "1", "0">> ELSE IF i = n THEN <<"0", "-1", "0">> ELSE Unit(RPlus(dir(i - 1), dir(i)))
      side(i) == RDot(normal(i), RMinus(x, pts[i]))
      axis(i) == LET d == dir(i) y == RMinus(x, pts[i]) IN RNorm(RMinus(y, RTimes(RDot(d, y), d)))
      piece(i) == LeastOf(<<side(i), RNeg(side(i + 1)), radius (-) axis(i)>>) IN
  GreatestOf([i \in 1..(n - 1) |-> piece(i)])

Turned(angle, origin, x) == \* turned back
  LET y == RMinus(x, origin) c == RCos(angle) s == RSin(angle) IN
  RPlus(origin, <<(c (.) y[1]) (+) (s (.) y[2]), (c (.) y[2]) (-) (s (.) y[1])>>)
\* geometries of the plane do not depend on the third coordinate, the plane
\* is the one with third coordinate zero
Plane(x) == <<x[1], x[2]>>
Space(x) == IF Len(x) = 2 THEN Append(x, "0") ELSE x
RECURSIVE Value(_, _)
Value(g, x) ==
  CASE g.k = "polygon" -> PolygonValue(g.xs, g.ys, Plane(x))
    [] g.k = "cone" -> ConeValue(g, Space(x))
    [] g.k = "halfspace" -> HalfspaceValue(g.normal, g.offset, Space(x))
    [] g.k = "tube" -> TubeValue(g.pts, g.radius, Space(x))
    [] g.k = "plane" -> Value(g.g, Plane(x))
    [] g.k = "wrap" -> Value(g.g, x)
    [] g.k = "invert" -> RNeg(Value(g.g, x))
    [] g.k = "turn" -> Value(g.g, Turned(g.angle, g.origin, Plane(x)))
    [] g.k = "revolve" -> LET y == Space(x) IN Value(g.g, <<y[1], RSqrt(RSq(y[2]) (+) RSq(y[3]))>>)
    [] g.k = "union" -> GreatestOf([i \in DOMAIN g.gs |-> Value(g.gs[i], x)])
=============================================================================
