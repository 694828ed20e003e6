------------------------------ MODULE Counters ------------------------------
(* Counters collect measurements under a name, timers add the time of their  *)
(* own life once, and the statistics of all processes meet at one of them.   *)
EXTENDS Num, FiniteSets

RECURSIVE RFold(_, _, _)
RFold(op(_, _), acc, s) == IF s = <<>> THEN acc ELSE RFold(op, op(acc, s[1]), Tail(s))
\* of one counter, nothing counted is zero
Total(s) == RSum(s)
Least(s) == IF s = <<>> THEN "0" ELSE RFold(RMin, s[1], s)
Greatest(s) == IF s = <<>> THEN "0" ELSE RFold(RMax, s[1], s)
Mean(s) == IF s = <<>> THEN "0" ELSE RSum(s) (/) Len(s)
Variance(s) == IF s = <<>> THEN "0" ELSE LET m == Mean(s) IN RSum([i \in DOMAIN s |-> RSq(s[i] (-) m)]) (/) Len(s)
\* of all processes p[1..n], at the process `root`
Gathered(p, root) ==
  [count |-> Len(p[root]), min |-> Least([r \in DOMAIN p |-> Least(p[r])]), max |-> Greatest([r \in DOMAIN p |-> Greatest(p[r])]),
   mean |-> Mean([r \in DOMAIN p |-> Mean(p[r])]), variance |-> Variance([r \in DOMAIN p |-> Mean(p[r])])]

\* A timer runs for one counter or rests ("").  Taking over from another one
\* ends what ran before.
Running(timers) == {d \in DOMAIN timers : timers[d] # ""}
Begin(timers, d, name) == [timers EXCEPT ![d] = name]
TakeOver(timers, d, s) == [timers EXCEPT ![d] = timers[s], ![s] = ""]
End(timers, d) == [timers EXCEPT ![d] = ""]
=============================================================================
