---------------------------- MODULE MixtureTrace ----------------------------
(* Histories of real reactors: their scalar state and the lanes of their      *)
(* arrays.                                                                     *)
EXTENDS Mixture, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, one, lane, bad
vars == <<tid, l, one, lane, bad>>
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
W == 8
cl(name, ok) == IF ok THEN {} ELSE {<<"C24", name>>}
Eps == "2e-13"
Fit == "3e-9"   \* the coefficients of the enthalpies have nine digits
Fresh == SetPressure(Mixtures([s \in Species |-> IF s = 1 THEN "1" ELSE "0"], "300", "1"), "101325")
\* what the code holds; every setter stores what the next computation reads
Stored(o) == Mixtures(o.Y, o.T, o.rho)
SameFractions(Y, Z) == \A s \in Species : RClose(Y[s], Z[s], Eps, "1e-300")
SameState(m, o) == SameFractions(o.Y, m.Y) /\ RClose(o.T, m.T, Eps, "0") /\ RClose(o.rho, m.rho, Eps, "0")
\* derived quantities are those of what is stored
Derived(o, what) ==
  LET m == Stored(o) h == Enthalpy(m.Y, m.T) sc == EnergyScale(m.Y, m.T) IN
  cl("the pressure does not follow the law of the ideal gas: " \o what, RClose(o.p, Pressure(m), Eps, "0")) \cup
  cl("the mean molar mass is wrong: " \o what, RClose(o.M (.) PerMass(m.Y), "1", Eps, "0")) \cup
  cl("the enthalpy or the internal energy is wrong: " \o what,
     /\ RWithin(o.h, h, Fit (.) sc) /\ RWithin(o.u, o.h (-) (R0 (.) (PerMass(m.Y) (.) m.T)), Eps (.) sc)) \cup
  cl("a heat capacity is wrong: " \o what, LET cp == Cp(m.Y, m.T) IN RClose(o.cp, cp, Eps, "0") /\ RClose(o.cv, cp (-) (R0 (.) PerMass(m.Y)), Eps (.) 10, "0"))
XLogX(x) == IF RLeq(x, "0") THEN "0" ELSE x (.) RLog(x)
Entropy(m) ==
  LET x == MoleFractions(m.Y) per == R0 (.) PerMass(m.Y)
      s0 == [s \in Species |-> (s (.) 1000) (+) ("900" (.) RLog(m.T))]
  IN (MeanMass(s0, m.Y) (-) (per (.) RLog(Pressure(m) (/) "101325"))) (-) (per (.) RSum([s \in Species |-> XLogX(x[s])]))
ScalarDerived(o) ==
  LET m == Stored(o) x == MoleFractions(m.Y) n == RSum(o.x) hs == Hs(m.T) cps == Cps(m.T) IN
  Derived(o, "scalar") \cup
  cl("the enthalpies or heat capacities of the species are wrong",
     \A s \in Species : RWithin(o.hs[s], hs[s], Fit (.) (RAbs(hs[s]) (+) (cps[s] (.) m.T))) /\ RClose(o.cps[s], cps[s], Eps, "0")) \cup
  cl("the enthalpy is not that of the species", RWithin(o.h, MeanMass(o.hs, m.Y), Eps (.) EnergyScale(m.Y, m.T))) \cup
  cl("the amounts of substance are not those of the mass fractions", \A s \in Species : RClose(o.x[s], x[s] (.) n, Eps, "1e-300")) \cup
  cl("a mean over the species is wrong",
     /\ RWithin(o.my, MeanMass(o.q, m.Y), Eps (.) 4) /\ RWithin(o.mx, MeanMass(o.q, x), Eps (.) 4)) \cup
  cl("the entropy is wrong", IF Cfg.entropy THEN RWithin(o.s, Entropy(m), "1e-8" (.) (R0 (.) PerMass(m.Y))) ELSE o.s = "none")
\* the state after a setter; temperatures that are found by iteration are taken
\* from the code and judged by what they should reach
After(m, op, arg, o) ==
  CASE op = "T" -> SetTemperature(m, arg)
    [] op = "rho" -> SetDensity(m, arg)
    [] op = "p" -> SetPressure(m, arg)
    [] op = "Y" -> SetMassFractions(m, arg)
    [] op = "X" -> SetMoleFractions(m, arg)
    [] op \in {"U", "H"} -> SetTemperature(m, o.T)
    [] OTHER -> m
\* the polynomials of the enthalpies do not quite meet at 1000 K: there is no
\* temperature at which an energy in between is reached
Gap(o) == IF RWithin(o.T, "1000", "1e-3")
          THEN MeanMass([s \in Species |-> RAbs(HOf(s, "1000.000001") (-) HOf(s, "999.999999"))], o.Y) (+) (Fit (.) EnergyScale(o.Y, o.T)) ELSE "0"
Reached(op, arg, o, where) ==
  CASE op = "U" -> cl("the internal energy set is not reached: " \o where,
         RWithin(o.u, arg, (o.cv (.) "2e-6") (+) (Gap(o) (+) ("1e-11" (.) EnergyScale(o.Y, o.T)))))
    [] op = "H" -> cl("the enthalpy set is not reached: " \o where,
         RWithin(o.h, arg, (o.cp (.) "2e-6") (+) (Gap(o) (+) ("1e-11" (.) EnergyScale(o.Y, o.T)))))
    [] OTHER -> {}
\* the integral of cp/T from 300 K for the mixture
SInt(a, T, T0) == a[1] (.) ((a[2] (.) RLog(T (/) T0)) (+) ((a[3] (.) (T (-) T0)) (+) (((a[4] (/) 2) (.) (RSq(T) (-) RSq(T0))) (+)
   (((a[5] (/) 3) (.) ((RSq(T) (.) T) (-) (RSq(T0) (.) T0))) (+) ((a[6] (/) 4) (.) (RSq(RSq(T)) (-) RSq(RSq(T0))))))))
SOf(s, T) == IF RLess(T, T300) THEN Cp0(Low[s], T300) (.) RLog(T (/) T300)
             ELSE IF RLeq(T, "1000") THEN SInt(Low[s], T, T300)
             ELSE SInt(Low[s], "1000", T300) (+) SInt(High[s], T, "1000")
Sound(Y, T) == RSqrt(Gamma(Y, T) (.) (R0 (.) (PerMass(Y) (.) T)))
\* - int cp / a dT by Simpson's rule
Velocity(Y, T0, T1) ==
  LET n == 16 h == (T1 (-) T0) (/) n
      f(k) == LET T == T0 (+) (h (.) k) IN (Cp(Y, T) (/) Sound(Y, T)) (.) (IF k \in {0, n} THEN "1" ELSE IF k % 2 = 1 THEN "4" ELSE "2")
  IN RNeg((h (/) 3) (.) RSum([k \in 1..(n + 1) |-> f(k - 1)]))
Isentropic(m, e) ==
  LET o == e.o p0 == Pressure(m) moved == ~RWithin(e.arg, p0, "1e-5") IN
  cl("the pressure set is not reached at constant entropy",
     /\ (RClose(o.p, e.arg, "1e-12", "0") \/ (~moved /\ RWithin(o.p, e.arg, "2e-5")))
     /\ SameFractions(o.Y, m.Y)
     /\ RWithin(RSum([s \in Species |-> m.Y[s] (.) (SOf(s, o.T) (-) SOf(s, m.T))]), (R0 (.) PerMass(m.Y)) (.) RLog(o.p (/) p0), ("1e-6" (.) Cp(m.Y, m.T)))) \cup
  cl("the change of the velocity is not that of an isentropic wave",
     LET du == Velocity(m.Y, m.T, o.T) IN RWithin(e.du, du, ("2e-4" (.) RAbs(du)) (+) "1e-6"))
LanesAfter(e) == TLCEval([i \in 1..W |-> IF e.on[i] THEN After(lane[e.d][i], e.op, e.arg[i], e.o[i]) ELSE Stored(e.o[i])])
OneAfter(e) == CASE e.a = "set" -> After(one[e.d], e.op, e.arg, e.o)
                 [] e.a = "isentropic" -> Stored(e.o)
                 [] e.a = "copy" -> one[e.s]
AllLanes(o, what) == UNION {Derived(o[i], what) : i \in 1..W}
Seen(e, m, ls) ==
  cl("a state is not as it was left (" \o e.how \o "): scalar", SameState(m, e.o)) \cup
  cl("a state is not as it was left (" \o e.how \o "): arrays", \A i \in 1..W : SameState(ls[i], e.lanes[i])) \cup
  ScalarDerived(e.o) \cup AllLanes(e.lanes, "arrays")
Look(e) == [e EXCEPT !.a = "look"] @@ [how |-> "reading"]
Broken(e) ==
  CASE e.a = "look" -> Seen(Look(e), one[e.d], lane[e.d])
    [] e.a = "copy" -> Seen(e, one[e.s], lane[e.s])
    [] e.a = "set" -> LET m == After(one[e.d], e.op, e.arg, e.o) IN
         cl("a setter does not set what it names, or more: " \o e.op, SameState(m, e.o)) \cup
         Reached(e.op, e.arg, e.o, "scalar") \cup ScalarDerived(e.o)
    [] e.a = "isentropic" -> Isentropic(one[e.d], e) \cup ScalarDerived(e.o)
    [] e.a = "refused" -> cl("a composition that cannot be read is not refused", e.threw = 1)
    [] e.a = "lanes" -> LET ls == LanesAfter(e) IN
         cl("a setter of arrays does not set what it names, or more: " \o e.op, \A i \in 1..W : e.on[i] => SameState(ls[i], e.o[i])) \cup
         cl("a lane that is masked out has no proper state: " \o e.op,
            \A i \in 1..W : ~e.on[i] => /\ RLess("0", e.o[i].T) /\ RLess("0", e.o[i].rho) /\ RClose(RSum(e.o[i].Y), "1", Eps, "0")
                                       /\ \A s \in Species : RLeq("0", e.o[i].Y[s])) \cup
         UNION {Reached(e.op, e.arg[i], e.o[i], "arrays") : i \in {j \in 1..W : e.on[j]}} \cup AllLanes(e.o, "arrays")
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
\* what the code stores, within the round off that was judged, is what the next
\* event starts from
Init == /\ tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
        /\ one = [d \in 1..Cfg.slots |-> Fresh] /\ lane = [d \in 1..Cfg.slots |-> [i \in 1..W |-> Fresh]]
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
        /\ LET e == Ev[l] IN
           /\ one' = IF e.a \in {"set", "isentropic", "copy", "look"} THEN [one EXCEPT ![e.d] = Stored(e.o)] ELSE one
           /\ lane' = CASE e.a = "lanes" -> [lane EXCEPT ![e.d] = [i \in 1..W |-> Stored(e.o[i])]]
                        [] e.a \in {"copy", "look"} -> [lane EXCEPT ![e.d] = [i \in 1..W |-> Stored(e.lanes[i])]]
                        [] OTHER -> lane
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
