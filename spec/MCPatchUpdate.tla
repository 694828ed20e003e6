--------------------------- MODULE MCPatchUpdate ---------------------------
(* All fluxes and values on a small patch: the update conserves, and the     *)
(* updates of a divided patch are the update of the whole.                   *)
EXTENDS PatchUpdate, TLC
CONSTANTS NX, NY, V
VARIABLES dir, u, f, done
vars == <<dir, u, f, done>>
Box == [lo |-> <<0, 0>>, up |-> <<NX, NY>>]
Fld(b) == LET n == Len(CellsOf(b)) IN {[lo |-> b.lo, up |-> b.up, vals |-> s] : s \in [1..n -> 0..V]}
Init == /\ dir \in {1, 2}
        /\ u \in {[lo |-> Box.lo, up |-> Box.up, vals |-> [j \in 1..(NX * NY) |-> (j * 7) % 3]]}
        /\ f \in Fld(Faces(Box, dir)) /\ done = FALSE
Step == /\ ~done /\ done' = TRUE
        /\ u' = [u EXCEPT !.vals = Updated(Box, u, f, dir, 3, 1)]
        /\ UNCHANGED <<dir, f>>
Spec == Init /\ [][Step]_vars
Conserves == [][SumSeq(u'.vals) - SumSeq(u.vals) = Through(Box, f, dir, 3, 1)]_vars
Halves == ~done => \A k \in 1..(NX - 1) :
  LET a == [Box EXCEPT !.up[1] = k] b == [Box EXCEPT !.lo[1] = k] IN
  SumSeq(Updated(a, u, f, dir, 3, 1)) + SumSeq(Updated(b, u, f, dir, 3, 1)) = SumSeq(Updated(Box, u, f, dir, 3, 1))
=============================================================================
