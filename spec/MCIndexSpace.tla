---------------------------- MODULE MCIndexSpace ----------------------------
(* The box calculus means what the sets of cells say, for all small boxes,   *)
(* and subviews and slices name the cells of the view they were taken from.  *)
EXTENDS IndexSpace, TLC
CONSTANTS R, N

VARIABLES a, b, phase
vars == <<a, b, phase>>
Boxes == {x \in [lo : [1..R -> 0..N], up : [1..R -> 0..N]] : Valid(x)}
Init == a \in Boxes /\ b \in Boxes /\ phase = 0
Next == /\ phase = 0 /\ phase' = 1
        /\ b' = Intersection(a, b) /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
Storage(x) == [off |-> 0, lo |-> x.lo, st |-> LeftStrides(Extents(x))]
Meaning ==
  /\ phase = 0 => CellSet(Intersection(a, b)) = CellSet(a) \cap CellSet(b)
  /\ (~Empty(b)) => (ContainsBox(a, b) <=> CellSet(b) \subseteq CellSet(a))
  /\ \A d \in 1..R : Shrunk(Grown(a, d, 1, 2), d, 1, 2) = a
  /\ \A c \in SeqSet(CellsOf(a)) : In(c, a) /\ ContainsBox(Neighbours(c, 1), [lo |-> c, up |-> [d \in 1..R |-> c[d] + 1]])
  /\ Len(CellsOf(a)) = Cardinality(CellSet(a))
  \* storage is addressed densely and without aliasing
  /\ (~Empty(a)) => Addresses(Storage(a), a) = [j \in 1..Len(CellsOf(a)) |-> j - 1]
  /\ (ContainsBox(a, b) /\ ~Empty(b)) =>
       /\ Addresses(SubviewOf(Storage(a), b), b) = Addresses(Storage(a), b)
       /\ R > 1 => \A c \in 0..(b.up[R] - b.lo[R] - 1) :
            LET v == SliceOf(SubviewOf(Storage(a), b), c) p == Projected(b, R - 1) IN
            \A i \in SeqSet(CellsOf(p)) : Address(v, i) = Address(Storage(a), Append(i, b.lo[R] + c))
=============================================================================
