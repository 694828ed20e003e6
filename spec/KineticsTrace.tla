---------------------------- MODULE KineticsTrace ----------------------------
(* Rates of real reactors, and their states before and after time has passed. *)
EXTENDS Kinetics, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
cl(name, ok) == IF ok THEN {} ELSE {<<"C25", name>>}
Mix(o) == Mixtures(o.Y, o.T, o.rho)
Pos(x) == RMax("0", x)
Eps == "1e-7"
\* what can be read is that of the state
Fresh(o, when) ==
  LET m == Mix(o) sc == EnergyScale(o.Y, o.T) IN
  cl("what is read is not that of the state " \o when,
     /\ RClose(o.p, Pressure(m), "1e-9", "0") /\ RWithin(o.h, Enthalpy(o.Y, o.T), "1e-8" (.) sc) /\ RWithin(o.u, Energy(o.Y, o.T), "1e-8" (.) sc)
     /\ RClose(o.cp, Cp(o.Y, o.T), "1e-8", "0") /\ RClose(o.cv, Cv(o.Y, o.T), "1e-8", "0"))
\* what holds for every advance
Closed(o, n) ==
  LET m == Mix(o) k == Mix(n) IN
  cl("the density changes in a closed volume", RClose(n.rho, o.rho, "1e-14", "0")) \cup
  cl("the mass fractions are no longer fractions", Proper(k, "1e-7")) \cup
  cl("atoms appear or disappear", SameElements(m, k, "1e-7")) \cup
  cl("inert species take part", \A s \in {1, 2, 9} : RWithin(n.Y[s], o.Y[s], "1e-10")) \cup
  cl("the internal energy is not conserved", SameEnergy(m, k, "3e-6")) \cup
  Fresh(n, "after it was advanced")
Same(o, n, eps) == /\ RClose(o.T, n.T, eps, "0") /\ RClose(o.rho, n.rho, "1e-12", "0") /\ \A s \in Species : RWithin(o.Y[s], n.Y[s], eps)
Broken(e) ==
  CASE e.a = "rates" ->
       LET m == Mix(e.o) w == RatesOf(m) p == Productions(w) tu == Turnovers(w) IN
       cl("a rate of a reaction is not that of the mechanism",
          \A j \in DOMAIN Reactions : RClose(e.w[2 * j - 1], w[j][1], Eps, "1e-300") /\ RClose(e.w[2 * j], w[j][2], Eps, "1e-300")) \cup
       cl("a rate of production is not that of the mechanism", \A s \in Species : RWithin(e.cd[s], p[s], Eps (.) (tu[s] (+) "1e-300"))) \cup
       cl("reactions make or destroy atoms",
          \A x \in DOMAIN Elements : RWithin(ElementSum(x, e.cd), "0", "1e-11" (.) (ElementSum(x, tu) (+) "1e-300"))) \cup
       cl("what is not there is used", \A s \in Species : RLeq(e.o.Y[s], "0") => RLeq("0", e.cd[s])) \cup Fresh(e.o, "before it is advanced")
    [] e.a = "short" -> Closed(e.o, e.n) \cup
       cl("a species does not change at the rate of its reactions", ShortStep(Mix(e.o), Mix(e.n), e.dt))
    [] e.a = "long" -> Closed(e.o, e.n) \cup cl("no equilibrium is reached", Steady([Mix(e.n) EXCEPT !.Y = [s \in Species |-> Pos(e.n.Y[s])]], "1e-5"))
    [] e.a = "rest" -> cl("a state changes without time or reactions", Same(e.o, e.n, "1e-11")) \cup Fresh(e.n, "at rest")
    [] e.a = "parts" -> Closed(e.o, e.n) \cup Closed(e.o, e.two) \cup
       cl("two steps do not add up", Same(e.n, e.two, "1e-4"))
    [] e.a = "feedback" -> Closed(e.o, e.n) \cup
       LET k == Len(e.when) c0 == Concentrations(Mix(e.o)) c1 == Concentrations(Mix(e.n)) IN
       cl("the feedback is not called from begin to end",
          /\ e.sorted = 1 /\ e.again <= 2 /\ e.mine = 1 /\ k >= 2 /\ REq(e.when[1], "0") /\ RClose(e.when[k], e.dt, "1e-12", "0")) \cup
       cl("the feedback does not see the states",
          /\ RClose(e.seen[1][1], e.o.T, "1e-12", "0") /\ \A s \in Species : RClose(e.seen[1][s + 1], c0[s], "1e-12", "1e-300")
          /\ RClose(e.seen[k][1], e.n.T, "1e-12", "0") /\ \A s \in Species : RClose(e.seen[k][s + 1], c1[s], "1e-12", "1e-300")
          /\ \A i \in 1..k : LET c == [s \in Species |-> e.seen[i][s + 1]] rho == RSum([s \in Species |-> c[s] (.) MolarMass[s]])
                             IN RClose(rho, e.o.rho, "1e-8", "0") /\ SameEnergy(Mix(e.o), Mixtures([s \in Species |-> (c[s] (.) MolarMass[s]) (/) rho], e.seen[i][1], rho), "3e-6")) \cup
       cl("the state depends on who is watching", Same(e.n, e.plain, "1e-9") /\ Same(e.n, e.find, "1e-9")) \cup
       cl("the steepest rise is not found", e.again = 0 => REq(e.at, e.steepest))
    [] e.a = "step" -> Closed(e.o, e.n) \cup Fresh(e.o, "before it is advanced")
    [] e.a = "script" -> Fresh(e.n, "after it was advanced") \cup
       LET c0 == Concentrations(Mix(e.o)) k == Len(e.times) IN
       cl("the solver is not given the state and the time",
          /\ e.used = <<0>> /\ REq(e.t0, "0") /\ REq(e.dt, e.dt0) /\ RClose(e.yin[1], e.o.T, "1e-14", "0")
          /\ \A s \in Species : RClose(e.yin[s + 1], c0[s], "1e-12", "1e-300")) \cup
       cl("the result of the solver is not that of the reactor", Same(e.n, [e.o EXCEPT !.T = e.temps[k]], "1e-12")) \cup
       cl("the steepest rise is not found", e.find => \E i \in Steepest(e.times, e.temps) : REq(e.at, e.times[i])) \cup
       cl("the feedback is not called from begin to end", e.find \/ (e.st = e.times /\ e.sT = e.temps /\ e.mine = 1))
    \* copies have solvers of their own, moves hand them on
    [] e.a = "solver" ->
       cl("a reactor uses the solver of another one",
          IF e.op <= 1 THEN e.used = <<1, 0>> /\ e.parent = <<-1, 0>> ELSE e.used = <<0>> /\ e.parent = <<-1>>)
    [] e.a = "gaveup" -> {}
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
