--------------------------- MODULE BoundaryTrace ---------------------------
(* Boundaries filled by the real conditions over states that name their cell.*)
EXTENDS Boundary, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
B(x) == [lo |-> x[1], up |-> x[2]]
cl(name, ok) == IF ok THEN {} ELSE {<<"C15", name>>}
P == <<17, 101, 577>>
Val(v, i) == ((131 * v + Dot(SubSeq(P, 1, Len(i)), i)) * 7919) % 997
VectorNames == <<"momentum0", "momentum1", "momentum2">>
VelocityNames == <<"velocity0", "velocity1", "velocity2">>
Index(names, x) == CHOOSE c \in DOMAIN names : names[c] = x
\* positions of the vector's components
VecOf(names, R) ==
  IF \E c \in DOMAIN names : names[c] = "momentum0"
  THEN [d \in 1..R |-> Index(names, VectorNames[d])]
  ELSE [d \in 1..R |-> Index(names, VelocityNames[d])]
Others(names, vec) == DOMAIN names \ {vec[d] : d \in DOMAIN vec}
WallOk(e) ==
  LET all == B(e.all) fill == B(e.fill) cells == CellsOf(all)
      normal == Index(e.names, VectorNames[e.dir]) IN
  \A c \in DOMAIN e.names : \A j \in DOMAIN cells :
    LET i == cells[j] IN
    e.after[c][j] = IF In(i, fill)
                    THEN (IF c = normal THEN -1 ELSE 1) * Val(c - 1, Mirror(i, fill, e.dir, e.side))
                    ELSE Val(c - 1, i)
OutflowOk(e) ==
  LET all == B(e.all) cells == CellsOf(all) fill == Layers(all, e.dir, e.side, e.w)
      nan == {e.nans[k] : k \in DOMAIN e.nans}
      pos == [i \in {cells[j] : j \in DOMAIN cells} |-> CHOOSE j \in DOMAIN cells : cells[j] = i] IN
  \A c \in DOMAIN e.after : \A j \in DOMAIN cells :
    LET i == cells[j] s == LastInner(i, all, e.dir, e.side, e.w) IN
    e.after[c][j] = IF ~In(i, fill) THEN e.before[c][j]
                    ELSE IF e.cut /\ s \in nan THEN e.fallback[c]
                    ELSE e.before[c][pos[s]]
ReflectOk(e) ==
  LET R == Len(e.n) vec == VecOf(e.names, R)
      v == [d \in 1..R |-> e.before[vec[d]]] IN
  [d \in 1..R |-> e.after[vec[d]]] = ReflectV(v, e.n, e.k)
Near(a, b, tol) == Abs(a - b) <= tol
RotateOk(e) ==
  LET R == Len(e.from) vec == VecOf(e.names, R) IN
  \A d \in 1..R : Near(e.after[vec[d]] * 100,
                       SumOver([k \in 1..R |-> e.m[d][k] * e.before[vec[k]]]), 110 + 2 * SumOver([k \in 1..R |-> Abs(e.before[vec[k]])]))
MatrixOk(e) == \* orthogonal, and it turns the one direction into the other
  LET R == Len(e.from) IN
  /\ \A a, b \in 1..R : Near(SumOver([k \in 1..R |-> e.m[a][k] * e.m[b][k]]), IF a = b THEN 100000000 ELSE 0, 40000)
  /\ \A d \in 1..R : Near(SumOver([k \in 1..R |-> e.m[d][k] * e.from[k]]) * e.kt, 10000 * e.to[d] * e.kf, 4 * e.kf * e.kt)
Broken(e) ==
  CASE e.a = "wall" -> cl("a wall cell is not the mirror image of its inner cell, or another cell is changed", WallOk(e))
    [] e.a = "outflow" -> cl("an outflow cell does not continue the last inner cell, or another cell is changed", OutflowOk(e))
    [] e.a = "reflect" ->
       LET vec == VecOf(e.names, Len(e.n)) IN
       cl("a reflected vector is not mirrored at the plane", ReflectOk(e)) \cup
       cl("reflection changes a scalar", \A c \in Others(e.names, vec) : e.after[c] = e.before[c])
    [] e.a = "rotate" ->
       LET vec == VecOf(e.names, Len(e.from)) IN
       cl("the rotation is not orthogonal or does not map the directions", MatrixOk(e)) \cup
       cl("a rotated vector is not the product with the rotation", RotateOk(e)) \cup
       cl("rotation changes a scalar", \A c \in Others(e.names, vec) : e.after[c] = e.before[c])
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
