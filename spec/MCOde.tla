-------------------------------- MODULE MCOde --------------------------------
(* A kernel that may fail in any of its ways: what is returned has been         *)
(* integrated over the whole interval from the initial values, every part once. *)
EXTENDS Ode
Codes == {1, 2, -1, -2, -3, -4, -42, -7}
VARIABLES codes, done, at, state, answer
vars == <<codes, done, at, state, answer>>
\* at: the time in halves; state: the parts that were integrated, in order, since
\* the initial values (<<from, till>>)
Init == codes \in [1..3 -> Codes] /\ done = 0 /\ at = 0 /\ state = <<>> /\ answer = "none"
Attempt ==
  /\ answer = "none"
  /\ LET i == done + 1 c == codes[i] s == IF StartsAt(i) = 0 THEN <<>> ELSE state IN
     /\ done' = i
     /\ at' = IF c > 0 THEN Till(i) ELSE at
     /\ state' = IF c > 0 THEN Append(s, <<From(i), Till(i)>>) ELSE Append(s, <<From(i), "fail">>)
     /\ answer' = IF i = Attempts(codes) THEN Outcome(codes) ELSE "none"
  /\ UNCHANGED codes
Next == Attempt
Spec == Init /\ [][Next]_vars
Complete == answer = "ok" => /\ at = 2
                             /\ \/ state = <<<<0, 2>>>>
                                \/ state = <<<<0, 1>>, <<1, 2>>>>
Failed == answer \notin {"ok", "none"} => \E i \in 1..done : codes[i] <= 0
Bounded == done <= 3 /\ (done = Attempts(codes) <=> answer # "none")
\* a failure is never reported as success, a success never as failure
Honest == (answer = "ok") => codes[done] > 0
\* the solutions solve their equations: central differences, and the flow has no
\* memory of where it was started
Probs == { <<"decay", <<"0.7", "2.5">>, <<"1.5", "-1">>>>, <<"turn", <<"3.1">>, <<"1", "-0.4">>>>, <<"logistic", <<"1.3", "2">>, <<"0.4">>>>,
           <<"logistic", <<"0.7", "1">>, <<"2.4">>>>, <<"forced", <<"1.2", "3", "-0.7", "0.4">>, <<"0.1", "0.2">>>>, <<"stiff", <<"20">>, <<"1.7">>>>, <<"bump", <<"1.5", "0.4", "0.7">>, <<"0.3">>>>,
           <<"chain", <<"0.6", "1.7">>, <<"1", "0.5", "0.2">>>> }
Near(a, b, eps) == \A i \in DOMAIN a : RWithin(a[i], b[i], eps)
H == "1e-6"
ASSUME Solves ==
  \A q \in Probs : \A t0 \in {"0", "-1.3"} : \A s \in {"0", "0.3", "1.9"} :
    LET t == t0 (+) s y == Solution(q[1], q[2], t0, q[3], t)
        a == Solution(q[1], q[2], t0, q[3], t (+) H) b == Solution(q[1], q[2], t0, q[3], t (-) H)
    IN Near([i \in DOMAIN y |-> (a[i] (-) b[i]) (/) ("2" (.) H)], Rhs(q[1], q[2], t, y), "1e-7")
ASSUME Flow ==
  \A q \in Probs : \A t0 \in {"0", "-1.3"} :
    /\ Near(Solution(q[1], q[2], t0, q[3], t0), q[3], "1e-14")
    /\ LET m == Solution(q[1], q[2], t0, q[3], t0 (+) "0.8")
       IN Near(Solution(q[1], q[2], t0 (+) "0.8", m, t0 (+) "2"), Solution(q[1], q[2], t0, q[3], t0 (+) "2"), "1e-13")
=============================================================================
