------------------------------ MODULE Splitting ------------------------------
(* Splitting methods: how a step of several operators is composed from steps *)
(* of the single operators.  An execution is a sequence of calls; a failing  *)
(* call ends it.                                                             *)
EXTENDS Integers, Sequences, FiniteSets

Methods == {"godunov", "strang", "lumped"}

\* the calls of operators S (in this order) with step dt; steps are dyadic,
\* dt is a multiple of 2^(number of operators)
RECURSIVE Plan(_, _, _)
Plan(m, S, dt) ==
  IF Len(S) = 1 THEN << <<S[1], dt>> >>
  ELSE LET One(h) == << <<S[1], h>> >>
           Rest(h) == Plan(m, Tail(S), h) IN
       CASE m = "godunov" -> One(dt) \o Rest(dt)
         [] m = "strang"  -> One(dt \div 2) \o Rest(dt \div 2) \o Rest(dt \div 2) \o One(dt \div 2)
         [] m = "lumped"  -> One(dt \div 2) \o Rest(dt) \o One(dt \div 2)

\* what users rely on, whatever the plan is
Spent(calls, o) ==
  LET RECURSIVE Sm(_)
      Sm(i) == IF i = 0 THEN 0 ELSE (IF calls[i][1] = o THEN calls[i][2] ELSE 0) + Sm(i - 1)
  IN Sm(Len(calls))
Complete(calls, S, dt) == \A i \in DOMAIN S : Spent(calls, S[i]) = dt
Positive(calls) == \A i \in DOMAIN calls : calls[i][2] > 0
Symmetric(calls) == \A i \in DOMAIN calls : calls[i] = calls[Len(calls) + 1 - i]
FirstUse(calls, o) == CHOOSE i \in DOMAIN calls : calls[i][1] = o /\ \A j \in 1..(i-1) : calls[j][1] # o
InOrder(calls, S) == \A i, j \in DOMAIN S : i < j =>
  ((\E k \in DOMAIN calls : calls[k][1] = S[j]) =>
   (\E k \in DOMAIN calls : calls[k][1] = S[i]) /\ FirstUse(calls, S[i]) < FirstUse(calls, S[j]))
Prefix(p, q) == Len(p) <= Len(q) /\ \A i \in DOMAIN p : p[i] = q[i]

\* clauses for a finished execution: calls made, index of the failing one (0:
\* none), whether success was returned, and the returned error's identity
Broken(cfg, e) ==
  LET S == [i \in 1..cfg.n |-> i]
      cl(name, ok) == IF ok THEN {} ELSE {<<"C09", name>>}
      done == e.fail = 0 IN
  cl("an operator is not advanced by exactly the step", done => Complete(e.calls, S, cfg.dt)) \cup
  cl("an operator gets a step that is not positive", Positive(e.calls)) \cup
  cl("operators are not used in the given order", InOrder(e.calls, S)) \cup
  cl("the composition is not symmetric in time", (done /\ cfg.m # "godunov") => Symmetric(e.calls)) \cup
  cl("an operator is applied more than once", cfg.m = "godunov" => Len(e.calls) <= cfg.n) \cup
  cl("the composition is not the documented one of two operators",
     cfg.n = 2 => Prefix(e.calls, Plan(cfg.m, S, cfg.dt))) \cup
  cl("operators are called after a failure", e.fail > 0 => Len(e.calls) = e.fail) \cup
  cl("a failure is not returned", e.fail > 0 => (~e.ok /\ e.err = e.fail)) \cup
  cl("a failure is returned without cause", done => e.ok)
=============================================================================
