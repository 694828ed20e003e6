------------------------------ MODULE Tagging ------------------------------
(* Which cells are marked for refinement.  Marks are never taken away.       *)
EXTENDS IndexSpace

Abs(x) == IF x < 0 THEN -x ELSE x
\* a cell next to or on a mark, in the maximum norm
Near(i, j, w) == \A d \in DOMAIN i : Abs(i[d] - j[d]) <= w
Buffered(tagged, box, w) == {i \in CellSet(box) : \E j \in tagged : Near(i, j, w)}
\* the relative difference |a-b|/(|a|+|b|) exceeds t/64 (or reaches it)
Exceeds(a, b, t) == 64 * Abs(a - b) > t * (Abs(a) + Abs(b))
Reaches(a, b, t) == (a # b) /\ 64 * Abs(a - b) >= t * (Abs(a) + Abs(b))
=============================================================================
