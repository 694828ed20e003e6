----------------------------- MODULE MCTagging -----------------------------
(* The buffer widened in place, cell after cell in memory order, with marks  *)
(* of its own so that the buffer does not widen itself: for every set of     *)
(* tags the result is the exact neighbourhood; buffers add up; they never    *)
(* take a tag away.                                                          *)
EXTENDS Tagging, TLC
CONSTANTS NX, NY, WMax
VARIABLES tagged, w, marks, pos
vars == <<tagged, w, marks, pos>>
Box == [lo |-> <<0, 0>>, up |-> <<NX, NY>>]
C == CellsOf(Box)
Init == /\ tagged \in SUBSET CellSet(Box) /\ w \in 0..WMax
        /\ marks = [i \in CellSet(Box) |-> IF i \in tagged THEN 1 ELSE 0] /\ pos = 1
Scan == /\ pos <= Len(C) /\ pos' = pos + 1 /\ UNCHANGED <<tagged, w>>
        /\ marks' = IF marks[C[pos]] \in {0, 3} THEN marks
                    ELSE [i \in DOMAIN marks |-> IF marks[i] = 0 /\ Near(i, C[pos], w) THEN 3 ELSE marks[i]]
Spec == Init /\ [][Scan]_vars
Marked == {i \in DOMAIN marks : marks[i] # 0}
Exact == pos > Len(C) => Marked = Buffered(tagged, Box, w)
Keeps == tagged \subseteq Marked
Adds == pos = 1 => \A a \in 0..w : Buffered(Buffered(tagged, Box, a), Box, w - a) = Buffered(tagged, Box, w)
=============================================================================
