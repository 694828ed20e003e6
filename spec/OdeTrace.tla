------------------------------ MODULE OdeTrace ------------------------------
(* The real solver, around its real kernel and around one with a script.       *)
EXTENDS Ode, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
cl(name, ok) == IF ok THEN {} ELSE {<<"C26", name>>}
Same(a, b) == DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : REq(a[i], b[i])
Time(e, halves) == CASE halves = 0 -> e.t0 [] halves = 2 -> e.t1 [] OTHER -> (e.t0 (+) (e.dt (/) 2))
At(x, y) == RClose(x, y, "1e-14", "1e-14")
Script(e) ==
  LET n == Attempts(e.codes) IN
  cl("the outcome is not that of the kernel", e.out = Outcome(e.codes)) \cup
  cl("the kernel is not asked as often as it should", Len(e.attempts) = n) \cup
  UNION { LET k == e.attempts[i] IN
    cl("the kernel does not integrate over the interval",
       At(k.x, Time(e, From(i))) /\ At(k.xend, Time(e, Till(i)))) \cup
    cl("the kernel does not start where it should",
       IF StartsAt(i) = 0 THEN Same(k.in, e.y0) ELSE Same(k.in, e.attempts[StartsAt(i)].out)) \cup
    cl("the kernel is not given the settings",
       /\ REq(k.h, e.h) /\ REq(k.rtol, e.rtol) /\ REq(k.atol, e.atol) /\ k.itol = 0 /\ k.imas = 0 /\ k.full = 1 /\ k.n = e.n
       /\ k.ijac = (IF e.jc THEN 1 ELSE 0) /\ k.iout = (IF e.fb THEN 1 ELSE 0)
       \* the kernel needs so much space for a full Jacobian, seven stages and no mass matrix
       /\ k.lwork >= e.n * (e.n + 7 * e.n + 3 * 7 + 3) + 20 /\ k.liwork >= 5 * e.n + 20) \cup
    cl("the right hand side is not the user's",
       /\ Len(e.asked) >= i /\ At(e.asked[i].t, k.xm) /\ Same(e.asked[i].y, k.in)
       /\ \A j \in DOMAIN k.f : RClose(k.f[j], (("10" (.) k.xm) (+) k.in[j]) (+) (j - 1), "1e-12", "1e-12")) \cup
    cl("the Jacobian is not the user's",
       e.jc => /\ Len(e.jacs) >= i /\ At(e.jacs[i].t, k.xm) /\ Same(e.jacs[i].y, k.in) /\ e.jacs[i].size = e.n * e.n
               /\ \A j \in DOMAIN k.jac : RClose(k.jac[j], k.xm (+) (j - 1), "1e-12", "1e-12")) \cup
    cl("the feedback does not reach the user",
       e.fb => /\ Len(e.seen) >= 2 * i /\ At(e.seen[2 * i - 1].t, k.x) /\ Same(e.seen[2 * i - 1].y, k.in)
               /\ At(e.seen[2 * i].t, k.xe) /\ Same(e.seen[2 * i].y, k.out))
    : i \in 1..(IF Len(e.attempts) < n THEN Len(e.attempts) ELSE n) } \cup
  cl("callbacks are called that were not asked for", Len(e.asked) = Len(e.attempts) /\ Len(e.seen) = (IF e.fb THEN 2 * Len(e.attempts) ELSE 0)
                                                     /\ Len(e.jacs) = (IF e.jc THEN Len(e.attempts) ELSE 0)) \cup
  cl("the result is not that of the kernel", e.out = "ok" /\ Len(e.attempts) = n => Same(e.y, e.attempts[n].out))
Bad == {"nan", "allnan", "blowup"}
Accurate(e, y, t) ==
  LET w == Solution(e.kind, e.p, e.t0, e.y0, t) eps == "1e-7" (+) ("1e3" (.) e.tol)
      \* backwards, decaying solutions grow, and errors with them
      g == RMax("1", RSum([i \in DOMAIN w |-> RAbs(w[i])]))
  IN \A i \in DOMAIN w : RWithin(y[i], w[i], eps (.) g)
Between(e, t) == LET eps == "1e-12" (.) (RAbs(e.t0) (+) (RAbs(e.t1) (+) 1))
                 IN RLeq(RMin(e.t0, e.t1) (-) eps, t) /\ RLeq(t, RMax(e.t0, e.t1) (+) eps)
Solve(e) ==
  cl("buffers of another size are handed to the user's functions", e.sizes = 1) \cup
  cl("a clone integrates differently", e.same = 1) \cup
  (IF e.kind \in Bad
   THEN cl("a failure is not reported", e.out # "ok") \cup cl("the wrong failure is reported", (e.kind = "allnan") => e.out = "nan")
   ELSE cl("an integration fails", e.out = "ok") \cup
        cl("the solution is wrong", Accurate(e, e.y, e.t1)) \cup
        cl("the user's functions are called outside of the interval", Between(e, e.lo) /\ Between(e, e.hi)) \cup
        cl("the Jacobian is not asked for, or not given", IF e.jc THEN e.jcalls >= 1 ELSE e.jcalls = 0) \cup
        LET k == Len(e.when) IN
        cl("the feedback is not called from begin to end",
           IF e.fb THEN k >= 2 /\ e.sorted = 1 /\ REq(e.when[1], e.t0) /\ At(e.when[k], e.t1) ELSE k = 0) \cup
        cl("the feedback does not see the solution",
           e.fb => /\ Same(e.seen[1], e.y0) /\ Same(e.seen[k], e.y) /\ \A i \in 1..k : Accurate(e, e.seen[i], e.when[i])))
Broken(e) ==
  CASE e.a = "script" -> Script(e)
    [] e.a = "solve" -> Solve(e)
    [] e.a = "factory" -> cl("an unknown solver is not refused", e.threw = 1)
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
