----------------------------- MODULE FluxSweep -----------------------------
(* A method defined on a stencil of 2w states is applied along a direction:  *)
(* the face i lies between the cells i-1 and i and sees the cells i-w..i+w-1; *)
(* the stable step of a patch is the least over all stencils inside of it.   *)
(* The sweep goes through rows in chunks of C lanes; the last chunk is       *)
(* partial and its remaining lanes hold anything.                            *)
EXTENDS IndexSpace

Stencil(face, dir, w) == [k \in 1..(2 * w) |-> Shifted(face, dir, k - 1 - w)]
\* the stencils inside of a box
StencilsIn(box, dir, w) == CellsOf([lo |-> [box.lo EXCEPT ![dir] = @ + w], up |-> [box.up EXCEPT ![dir] = @ - w + 1]])
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
SweepDt(box, dir, w, f(_)) ==
  LET s == StencilsIn(box, dir, w) IN Least({f(Stencil(s[j], dir, w)) : j \in DOMAIN s})
=============================================================================
