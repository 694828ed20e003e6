------------------------------- MODULE Mixture -------------------------------
(* The state of a mixture of ideal gases: mass fractions Y, temperature T and  *)
(* density rho, and what follows from them.                                    *)
EXTENDS Burke2012
Mixtures(Y, T, rho) == [Y |-> Y, T |-> T, rho |-> rho]
\* fractions of what is given: negative amounts count as none
Fractions(y) ==
  LET p == TLCEval([s \in Species |-> RMax("0", y[s])]) n == RSum(p)
  IN TLCEval([s \in Species |-> p[s] (/) n])
\* mass fractions of amounts of substance
MassOfMoles(x) ==
  LET p == TLCEval([s \in Species |-> RMax("0", x[s]) (.) MolarMass[s]]) n == RSum(p)
  IN TLCEval([s \in Species |-> p[s] (/) n])
MoleFractions(Y) ==
  LET p == TLCEval([s \in Species |-> Y[s] (/) MolarMass[s]]) n == RSum(p)
  IN TLCEval([s \in Species |-> p[s] (/) n])
PerMass(Y) == RSum([s \in Species |-> Y[s] (/) MolarMass[s]])       \* kmol per kg
MeanMass(q, Y) == RSum([s \in Species |-> Y[s] (.) q[s]])
Hs(T) == TLCEval([s \in Species |-> HOf(s, T)])
Cps(T) == TLCEval([s \in Species |-> CpOf(s, T)])
Pressure(m) == m.rho (.) (R0 (.) (PerMass(m.Y) (.) m.T))
DensityFor(m, p) == p (/) (R0 (.) (PerMass(m.Y) (.) m.T))
Enthalpy(Y, T) == MeanMass(Hs(T), Y)
Cp(Y, T) == MeanMass(Cps(T), Y)
Cv(Y, T) == Cp(Y, T) (-) (R0 (.) PerMass(Y))
Energy(Y, T) == Enthalpy(Y, T) (-) (R0 (.) (PerMass(Y) (.) T))
Gamma(Y, T) == Cp(Y, T) (/) Cv(Y, T)
\* the size of the terms, the scale of round off
EnergyScale(Y, T) == LET h == Hs(T) IN RSum([s \in Species |-> Y[s] (.) RAbs(h[s])]) (+) (Cp(Y, T) (.) T)
Concentrations(m) == TLCEval([s \in Species |-> (m.Y[s] (.) m.rho) (/) MolarMass[s]])
SetTemperature(m, T) == [m EXCEPT !.T = T]
SetDensity(m, rho) == [m EXCEPT !.rho = rho]
SetPressure(m, p) == [m EXCEPT !.rho = DensityFor(m, p)]
SetMassFractions(m, y) == [m EXCEPT !.Y = Fractions(y)]
SetMoleFractions(m, x) == [m EXCEPT !.Y = MassOfMoles(x)]
=============================================================================
