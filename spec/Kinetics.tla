------------------------------ MODULE Kinetics ------------------------------
(* What time does to a closed reactor of constant volume.                      *)
EXTENDS Mixture
ConcOf(m) == Concentrations(m)
RatesOf(m) == AllRates(Concentrations(m), m.T)
Productions(w) == TLCEval([s \in Species |-> Production(w, s)])
Turnovers(w) == TLCEval([s \in Species |-> Turnover(w, s)])
ElementsOf(m) == [e \in DOMAIN Elements |-> ElementSum(e, Concentrations(m))]
\* volume, mass, elements, inert species and energy do not change
SameElements(m, n, eps) == \A e \in DOMAIN Elements : RClose(ElementSum(e, Concentrations(n)), ElementSum(e, Concentrations(m)), eps, "1e-300")
SameEnergy(m, n, eps) == RWithin(Energy(n.Y, n.T), Energy(m.Y, m.T), eps (.) (Cv(m.Y, m.T) (.) m.T))
Proper(n, eps) == /\ \A s \in Species : RLeq(RNeg(eps), n.Y[s])
                  /\ RWithin(RSum(n.Y), "1", eps) /\ RLess("0", n.T) /\ RLess("0", n.rho)
\* by how much the reactions of a species change
Spread(w0, w1, s) == RSum([j \in DOMAIN Reactions |-> (Count(Reactions[j].r, s) + Count(Reactions[j].l, s)) (.) (RAbs(w1[j][1] (-) w0[j][1]) (+) RAbs(w1[j][2] (-) w0[j][2]))])
\* the change of a concentration is that of the rates in between, which are taken
\* between those of both ends; the step is short
ShortStep(m, n, dt) ==
  LET w0 == RatesOf(m) w1 == RatesOf(n) p0 == Productions(w0) p1 == Productions(w1)
      c0 == Concentrations(m) c1 == Concentrations(n) tu == Turnovers(w0) total == RSum(c0)
  IN \A s \in Species :
      LET mean == (p0[s] (+) p1[s]) (/) 2 IN
      RWithin(c1[s] (-) c0[s], mean (.) dt, (dt (.) (("0.5" (.) Spread(w0, w1, s)) (+) ("1e-5" (.) tu[s]))) (+) (total (.) "2e-12"))
\* the steps of a course of temperatures at which it rises fastest
Slope(times, temps, i) == (temps[i] (-) temps[i - 1]) (/) (times[i] (-) times[i - 1])
Steepest(times, temps) ==
  LET S == TLCEval([i \in 2..Len(times) |-> Slope(times, temps, i)]) IN
  {i \in DOMAIN S : \A j \in DOMAIN S : RLeq(S[j], S[i] (+) ("1e-12" (.) (RAbs(S[i]) (+) RAbs(S[j]))))}
\* equilibrium: what is made is used
Steady(n, eps) ==
  LET w == RatesOf(n) p == Productions(w) tu == Turnovers(w) total == RSum(tu)
  IN \A s \in Species : RWithin(p[s], "0", eps (.) total)
=============================================================================
