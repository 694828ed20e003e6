----------------------------- MODULE MCSplitting -----------------------------
(* Executions of the documented compositions with a failure at any call. *)
EXTENDS Splitting, TLC
CONSTANT MaxOps

VARIABLES m, n, calls, fail, over
vars == <<m, n, calls, fail, over>>
Dt == 64
S(k) == [i \in 1..k |-> i]
Init == /\ m \in Methods /\ n \in 1..MaxOps /\ calls = <<>> /\ fail = 0 /\ over = FALSE
Call == /\ ~over
        /\ LET p == Plan(m, S(n), Dt) IN
           IF Len(calls) = Len(p) THEN over' = TRUE /\ UNCHANGED <<calls, fail>>
           ELSE /\ calls' = Append(calls, p[Len(calls) + 1])
                /\ \/ fail' = 0 /\ over' = FALSE
                   \/ fail' = Len(calls) + 1 /\ over' = TRUE
        /\ UNCHANGED <<m, n>>
Spec == Init /\ [][Call]_vars
Meets == over => Broken([m |-> m, n |-> n, dt |-> Dt],
                        [calls |-> calls, fail |-> fail, ok |-> fail = 0, err |-> fail]) = {}
Bounded == \A o \in 1..n : Spent(calls, o) <= Dt
=============================================================================
