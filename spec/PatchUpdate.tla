---------------------------- MODULE PatchUpdate ----------------------------
(* The conservative update of a patch.  Boxes include the component as last  *)
(* direction; `dir` is the direction of the faces; the step ratio dt/dx is   *)
(* num/den and fluxes are multiples of den.                                  *)
EXTENDS IndexSpace

Value(lo, up, vals, i) == \* vals over [lo, up), first direction fastest
  LET e == Minus(up, lo) RECURSIVE Pos(_, _)
      Pos(d, w) == IF d > Len(e) THEN 1 ELSE (i[d] - lo[d]) * w + Pos(d + 1, w * e[d])
  IN vals[Pos(1, 1)]
\* the new value of the cell i
NewValue(u, f, dir, num, den, i) ==
  Value(u.lo, u.up, u.vals, i)
  + (num * (Value(f.lo, f.up, f.vals, i) - Value(f.lo, f.up, f.vals, Shifted(i, dir, 1)))) \div den
Updated(box, u, f, dir, num, den) ==
  LET c == CellsOf(box) IN [j \in DOMAIN c |-> NewValue(u, f, dir, num, den, c[j])]
\* the faces of a box in direction dir
Faces(box, dir) == [lo |-> box.lo, up |-> [box.up EXCEPT ![dir] = @ + 1]]
RECURSIVE SumSeq(_)
SumSeq(s) == IF Len(s) = 0 THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* conservation: the sum over a box changes by the fluxes through its two sides
Through(box, f, dir, num, den) ==
  LET first == SelectSeq(CellsOf(box), LAMBDA i : i[dir] = box.lo[dir]) IN
  SumSeq([j \in DOMAIN first |->
    (num * (Value(f.lo, f.up, f.vals, first[j])
            - Value(f.lo, f.up, f.vals, Shifted(first[j], dir, box.up[dir] - box.lo[dir])))) \div den])
=============================================================================
