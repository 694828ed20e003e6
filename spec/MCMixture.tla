------------------------------ MODULE MCMixture ------------------------------
(* A mixture whose temperature, density, pressure and composition are set in   *)
(* every order: what is set is what is read, what is not set is kept, and the  *)
(* thermodynamic data are those of one and the same gas.                       *)
EXTENDS Mixture
CONSTANTS Temps, Pressures, Densities, Mixes, Depth
Unit(s, x) == [i \in Species |-> IF i = s THEN x ELSE "0"]
Mix(k) == CASE k = "air" -> [i \in Species |-> IF i = 1 THEN "3.76" ELSE IF i = 4 THEN "1" ELSE "0"]
            [] k = "fuel" -> [i \in Species |-> IF i = 1 THEN "3.76" ELSE IF i = 4 THEN "1" ELSE IF i = 7 THEN "2" ELSE "-0.5"]
            [] k = "radicals" -> [i \in Species |-> "1"]
            [] k = "steam" -> Unit(8, "0.2")
            [] k = "helium" -> Unit(9, "7")
VARIABLES m, last, was, n
vars == <<m, last, was, n>>
Init == /\ \E k \in Mixes : m = Mixtures(Fractions(Mix(k)), "300", "1")
        /\ last = <<"T", "300">> /\ was = m /\ n = 0
Do(kind, arg, to) == m' = to /\ last' = <<kind, arg>> /\ was' = m
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E T \in Temps : Do("T", T, SetTemperature(m, T))
           \/ \E p \in Pressures : Do("p", p, SetPressure(m, p))
           \/ \E rho \in Densities : Do("rho", rho, SetDensity(m, rho))
           \/ \E k \in Mixes : Do("Y", k, SetMassFractions(m, Mix(k))) \/ Do("X", k, SetMoleFractions(m, Mix(k)))
Spec == Init /\ [][Next]_vars
One(x) == RClose(x, "1", "1e-30", "1")
Close(a, b) == RClose(a, b, "1e-30", "0")
\* fractions are fractions
Proper == One(RSum(m.Y)) /\ (\A s \in Species : RLeq("0", m.Y[s])) /\ One(RSum(MoleFractions(m.Y)))
\* what was set is read
Reads == CASE last[1] = "T" -> REq(m.T, last[2])
           [] last[1] = "rho" -> REq(m.rho, last[2])
           [] last[1] = "p" -> Close(Pressure(m), last[2])
           [] last[1] = "X" -> LET x == MoleFractions(m.Y) f == Fractions(Mix(last[2])) IN \A s \in Species : Close(x[s], f[s])
           [] last[1] = "Y" -> LET f == Fractions(Mix(last[2])) IN \A s \in Species : Close(m.Y[s], f[s])
\* the rest is kept
Keeps == last[1] \in {"T", "rho", "p"} => m.Y = was.Y /\ (last[1] # "T" => m.T = was.T) /\ (last[1] = "T" => m.rho = was.rho)
\* mole fractions given as mass fractions of the same mixture are the same mixture
Convert == LET back == MassOfMoles(MoleFractions(m.Y)) IN \A s \in Species : Close(back[s], m.Y[s])
\* the thermodynamics of a gas: positive heat capacities, 1 < gamma <= 5/3,
\* the energy grows with the temperature, at a rate that is the heat capacity
Step == "0.01"
Thermo ==
  LET T == m.T Y == m.Y up == T (+) Step g == Gamma(Y, T)
      du == Energy(Y, up) (-) Energy(Y, T) dh == Enthalpy(Y, up) (-) Enthalpy(Y, T)
      atKink == RLeq(T, "1000") /\ RLess("1000", up)
  IN /\ RLess("0", Cv(Y, T)) /\ RLess("1", g) /\ RLeq(g, "1.6666667")
     /\ RLess("0", du)
     /\ ~atKink => /\ RClose(du, Cv(Y, T) (.) Step, "1e-5", "0")
                   /\ RClose(dh, Cp(Y, T) (.) Step, "1e-5", "0")
     /\ Close(dh (-) du, R0 (.) (PerMass(Y) (.) Step))
\* the data of both ranges of temperatures belong to the same species, and R/M
\* is the gas constant over the molar mass, which is that of its atoms
ASSUME Data ==
  \A s \in Species :
    /\ RClose(Cp0(Low[s], "1000"), Cp0(High[s], "1000"), "0.005", "0")
    /\ RWithin(H0(Low[s], "1000"), H0(High[s], "1000"), "0.001" (.) (Cp0(Low[s], "1000") (.) "1000"))
    /\ RClose(Low[s][1] (.) MolarMass[s], R0, "1e-8", "0") /\ Low[s][1] = High[s][1]
    /\ RClose(MolarMass[s], RSum(<<Elements.N[s] (.) AtomicMass.N, Elements.AR[s] (.) AtomicMass.AR,
         Elements.H[s] (.) AtomicMass.H, Elements.O[s] (.) AtomicMass.O, Elements.HE[s] (.) AtomicMass.HE>>), "1e-12", "0")
    /\ MolarMass[s] # "0"
\* heats of formation at 298.15 K known from tables, in kJ/mol
ASSUME Formation ==
  LET hf(s) == (HOf(s, "298.15") (.) MolarMass[s]) (/) "1e6" IN
  /\ RWithin(hf(1), "0", "0.1") /\ RWithin(hf(2), "0", "0.1") /\ RWithin(hf(4), "0", "0.1") /\ RWithin(hf(7), "0", "0.1") /\ RWithin(hf(9), "0", "0.1")
  /\ RWithin(hf(3), "218", "1") /\ RWithin(hf(5), "249.2", "1") /\ RWithin(hf(6), "37.3", "1") /\ RWithin(hf(8), "-241.8", "1")
  /\ RWithin(hf(10), "12.3", "1") /\ RWithin(hf(11), "-136", "1")
=============================================================================
