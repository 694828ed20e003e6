----------------------------- MODULE IndexSpace -----------------------------
(* Index boxes, strided views and rows.  A box is [lo, up) componentwise; a  *)
(* view names the cells of a box by addresses (offsets into some storage).   *)
EXTENDS Integers, Sequences, FiniteSets

Rank(b) == Len(b.lo)
Dims(b) == 1..Len(b.lo)
In(i, b) == \A d \in Dims(b) : b.lo[d] <= i[d] /\ i[d] < b.up[d]
Empty(b) == \E d \in Dims(b) : b.up[d] <= b.lo[d]
Valid(b) == \A d \in Dims(b) : b.lo[d] <= b.up[d]
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b

\* the cells of a box, first direction fastest
RECURSIVE Cells(_, _)
Cells(lo, up) ==
  IF Len(lo) = 0 THEN << <<>> >>
  ELSE LET n == Len(lo)
           inner == Cells(SubSeq(lo, 1, n - 1), SubSeq(up, 1, n - 1))
           k == IF up[n] > lo[n] THEN up[n] - lo[n] ELSE 0
           m == Len(inner) IN
       [j \in 1..(k * m) |-> Append(inner[((j - 1) % m) + 1], lo[n] + (j - 1) \div m)]
CellsOf(b) == IF Empty(b) THEN <<>> ELSE Cells(b.lo, b.up)
CellSet(b) == {CellsOf(b)[i] : i \in DOMAIN CellsOf(b)}

ContainsBox(a, b) == \A d \in Dims(a) : a.lo[d] <= b.lo[d] /\ b.up[d] <= a.up[d]
Intersection(a, b) == LET l == [d \in Dims(a) |-> Mx(a.lo[d], b.lo[d])] IN
  [lo |-> l, up |-> [d \in Dims(a) |-> Mx(l[d], Mn(a.up[d], b.up[d]))]]
Shifted(i, dir, n) == [i EXCEPT ![dir] = @ + n]
Grown(b, dir, l, r) == [lo |-> [b.lo EXCEPT ![dir] = @ - l], up |-> [b.up EXCEPT ![dir] = @ + r]]
Shrunk(b, dir, l, r) == Grown(b, dir, -l, -r)
Embedded(b, l, u) == [lo |-> Append(b.lo, l), up |-> Append(b.up, u)]
Projected(b, r) == [lo |-> SubSeq(b.lo, 1, r), up |-> SubSeq(b.up, 1, r)]
Neighbours(i, w) == [lo |-> [d \in DOMAIN i |-> i[d] - w], up |-> [d \in DOMAIN i |-> i[d] + w + 1]]

\* addresses: a view has the origin o (of the first cell), an offset and strides
RECURSIVE Dot(_, _)
Dot(a, b) == IF Len(a) = 0 THEN 0 ELSE a[1] * b[1] + Dot(Tail(a), Tail(b))
Minus(a, b) == [d \in DOMAIN a |-> a[d] - b[d]]
Address(v, i) == v.off + Dot(Minus(i, v.lo), v.st)
Addresses(v, b) == LET c == CellsOf(b) IN [j \in DOMAIN c |-> Address(v, c[j])]
LeftStrides(e) == [d \in DOMAIN e |-> LET RECURSIVE P(_)
                                          P(k) == IF k = 0 THEN 1 ELSE e[k] * P(k - 1) IN P(d - 1)]
RightStrides(e) == [d \in DOMAIN e |-> LET RECURSIVE P(_)
                                           P(k) == IF k > Len(e) THEN 1 ELSE e[k] * P(k + 1) IN P(d + 1)]
Extents(b) == Minus(b.up, b.lo)
SubviewOf(v, b) == [off |-> Address(v, b.lo), lo |-> b.lo, st |-> v.st]
\* the component c (counted from the first) of the last direction
SliceOf(v, c) == LET n == Len(v.lo) IN
  [off |-> v.off + c * v.st[n], lo |-> SubSeq(v.lo, 1, n - 1), st |-> SubSeq(v.st, 1, n - 1)]

\* rows: the first direction at every index of the others
RowStarts(b) == IF Empty(b) THEN {} ELSE {i \in CellSet(b) : i[1] = b.lo[1]}
SeqSet(s) == {s[i] : i \in DOMAIN s}
=============================================================================
