---------------------------- MODULE MCFluxSweep ----------------------------
(* The chunked sweep as a machine: rows of a box one after another, in full  *)
(* chunks and a masked rest.  It computes every face from its own stencil,   *)
(* once, and the least over all stencils, whatever the idle lanes hold and   *)
(* whatever the lengths of the rows are.                                     *)
EXTENDS FluxSweep, TLC
CONSTANTS C,        \* lanes
          MaxN,     \* longest row
          Rows, W,
          V         \* values of the cells 0..V
VARIABLES n, cells, row, pos, written, dts, idle, done
vars == <<n, cells, row, pos, written, dts, idle, done>>
\* row r has cells 1..n+2W-1 and the faces 1..n, face j sees cells j..j+2W-1
Sten(r, j) == [k \in 1..(2 * W) |-> cells[r][j + k - 1]]
F(s) == LET RECURSIVE G(_) G(k) == IF k = 0 THEN 0 ELSE s[k] * (V + 1) + G(k - 1) * (V + 2) IN G(2 * W)
T(s) == LET RECURSIVE G(_) G(k) == IF k = 0 THEN 0 ELSE k * s[k] + G(k - 1) IN G(2 * W)
Inf == 100000
Init == /\ n \in 0..MaxN
        /\ cells \in [1..Rows -> [1..(n + 2 * W - 1) -> 0..V]]
        /\ row = 1 /\ pos = 0 /\ written = [r \in 1..Rows |-> <<>>]
        /\ dts = [i \in 1..C |-> Inf] /\ idle \in {-5, 0} /\ done = FALSE
Min2(a, b) == IF a < b THEN a ELSE b
Full == /\ ~done /\ n - pos >= C
        /\ written' = [written EXCEPT ![row] = @ \o [i \in 1..C |-> F(Sten(row, pos + i))]]
        /\ dts' = [i \in 1..C |-> Min2(dts[i], T(Sten(row, pos + i)))]
        /\ pos' = pos + C
        /\ UNCHANGED <<n, cells, row, idle, done>>
Rest == /\ ~done /\ n - pos < C
        /\ LET m == n - pos
               lane(i) == IF i <= m THEN T(Sten(row, pos + i)) ELSE idle IN
           /\ written' = [written EXCEPT ![row] = @ \o [i \in 1..m |-> F(Sten(row, pos + i))]]
           /\ dts' = [i \in 1..C |-> IF i <= m THEN Min2(dts[i], lane(i)) ELSE dts[i]]
        /\ IF row = Rows THEN done' = TRUE /\ UNCHANGED <<row, pos>>
           ELSE row' = row + 1 /\ pos' = 0 /\ UNCHANGED done
        /\ UNCHANGED <<n, cells, idle>>
Next == Full \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EveryFace == done => \A r \in 1..Rows : written[r] = [j \in 1..n |-> F(Sten(r, j))]
LeastStep == done /\ n > 0 => Least({dts[i] : i \in 1..C}) = Least({T(Sten(r, j)) : r \in 1..Rows, j \in 1..n})
\* the box description of the same stencils
Boxed == n > 0 => LET b == [lo |-> <<1>>, up |-> <<n + 2 * W>>]
                      s == StencilsIn(b, 1, W) IN
         /\ Len(s) = n
         /\ \A j \in DOMAIN s : LET st == Stencil(s[j], 1, W) IN
              [k \in DOMAIN st |-> cells[1][st[k][1]]] = Sten(1, j)
Ends == <>done
=============================================================================
