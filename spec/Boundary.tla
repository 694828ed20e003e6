------------------------------ MODULE Boundary ------------------------------
(* Boundary cells: mirrored at a wall, or continued from the last inner cell.*)
(* States are reflected at a plane and rotated by an orthogonal matrix.      *)
EXTENDS IndexSpace

\* the mirror image of i at the wall: the upper face of the filled box on side
\* 0, its lower face on side 1
Mirror(i, fill, dir, side) ==
  [i EXCEPT ![dir] = IF side = 0 THEN 2 * fill.up[dir] - 1 - @ ELSE 2 * fill.lo[dir] - 1 - @]
\* the cells of `all` in the outermost w layers on a side
Layers(all, dir, side, w) ==
  IF side = 0 THEN [all EXCEPT !.up[dir] = all.lo[dir] + w] ELSE [all EXCEPT !.lo[dir] = all.up[dir] - w]
LastInner(i, all, dir, side, w) ==
  [i EXCEPT ![dir] = IF side = 0 THEN all.lo[dir] + w ELSE all.up[dir] - w - 1]
RECURSIVE SumOver(_)
SumOver(s) == IF Len(s) = 0 THEN 0 ELSE Head(s) + SumOver(Tail(s))
DotV(a, b) == SumOver([d \in DOMAIN a |-> a[d] * b[d]])
\* reflection of v at the plane normal to n of length k (k*k divides v)
ReflectV(v, n, k) == [d \in DOMAIN v |-> v[d] - (2 * DotV(v, n) * n[d]) \div (k * k)]
Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================
