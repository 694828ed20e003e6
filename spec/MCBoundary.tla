----------------------------- MODULE MCBoundary -----------------------------
(* A closed box in one direction: cells with mass and momentum, wall cells   *)
(* mirrored.  Exhaustively: filling is the same when repeated, no mass flows *)
(* through the wall whatever the states are, and reflection is an involution *)
(* which keeps lengths.                                                      *)
EXTENDS Boundary, TLC
CONSTANTS N, W, V
VARIABLES rho, mom, filled
vars == <<rho, mom, filled>>
I == 0..(N - 1)
All == [lo |-> <<-W>>, up |-> <<N + W>>]
Left == [lo |-> <<-W>>, up |-> <<0>>]
Right == [lo |-> <<N>>, up |-> <<N + W>>]
D == (-W)..(N + W - 1)
Init == /\ rho \in {f \in [D -> 0..V] : \A i \in D \ I : f[i] = 0}
        /\ mom \in {f \in [D -> -V..V] : \A i \in D \ I : f[i] = 0}
        /\ filled = 0
Src(i) == IF i < 0 THEN Mirror(<<i>>, Left, 1, 0)[1] ELSE IF i >= N THEN Mirror(<<i>>, Right, 1, 1)[1] ELSE i
Fill == /\ filled < 2 /\ filled' = filled + 1
        /\ rho' = [i \in D |-> rho[Src(i)]]
        /\ mom' = [i \in D |-> IF i \in I THEN mom[i] ELSE -mom[Src(i)]]
Spec == Init /\ [][Fill]_vars
\* the mass flux of a symmetric scheme between the cells i-1 and i
MassFlux(i) == mom[i - 1] + mom[i] - (rho[i] - rho[i - 1])
NoLeak == filled > 0 => MassFlux(0) = 0 /\ MassFlux(N) = 0
Inside == \A i \in D : Src(i) \in I
Again == [][filled = 1 => rho' = rho /\ mom' = mom]_vars
Twice == \A a \in -V..V : \A b \in -V..V :
  LET v == <<25 * a, 25 * b>> r == ReflectV(v, <<3, -4>>, 5) IN
  ReflectV(r, <<3, -4>>, 5) = v /\ DotV(r, r) = DotV(v, v)
=============================================================================
