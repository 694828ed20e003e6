------------------------------ MODULE MCKinetics ------------------------------
(* Molecules that react one event at a time by the reactions of the mechanism: *)
(* atoms are neither made nor lost, no molecule is used that is not there, and *)
(* what can be made from fuel and air includes every species of the mechanism. *)
EXTENDS Burke2012, Integers
CONSTANTS Start     \* molecules of each species at the beginning
VARIABLES tok
Has(side) == \A s \in Species : tok[s] >= Count(side, s)
Partner(j, side) == Reactions[j].m \o Reactions[j].falloff = "" \/ \E s \in Species : tok[s] > Count(side, s)
Fire(j, sign) ==
  LET x == Reactions[j] side == IF sign = 1 THEN x.l ELSE x.r IN
  /\ Has(side) /\ Partner(j, side)
  /\ tok' = [s \in Species |-> tok[s] + sign * Nu(j, s)]
Init == tok = Start
Next == \E j \in DOMAIN Reactions, sign \in {1, -1} : Fire(j, sign)
Spec == Init /\ [][Next]_tok
Atoms(e, t) == LET f[i \in 0..NS] == IF i = 0 THEN 0 ELSE f[i - 1] + Elements[e][i] * t[i] IN f[NS]
Conserved == \A e \in DOMAIN Elements : Atoms(e, tok) = Atoms(e, Start)
NonNegative == \A s \in Species : tok[s] >= 0
Inert == tok[1] = Start[1] /\ tok[2] = Start[2] /\ tok[9] = Start[9]
\* rates of production from any concentrations: atoms are conserved, and what is
\* not there is not used
Conc == [s \in Species |-> tok[s] (.) "0.001"]
RatesProper ==
  \A T \in {"400", "1100", "2600"} :
   LET w == AllRates(Conc, T) cd == TLCEval([s \in Species |-> Production(w, s)]) tu == TLCEval([s \in Species |-> Turnover(w, s)]) IN
   /\ \A e \in DOMAIN Elements : RWithin(ElementSum(e, cd), "0", "1e-25" (.) (ElementSum(e, tu) (+) "1e-300"))
   /\ \A s \in Species : tok[s] = 0 => RLeq("0", cd[s])
   /\ \A j \in DOMAIN Reactions : RLeq("0", w[j][1]) /\ RLeq("0", w[j][2])
\* van't Hoff: the equilibrium constants of the rates are those of the
\* thermodynamic data, d ln(Kc) / dT = dU / (R T^2), within the accuracy of the fits
LnK(j, T, M) == LET one == [s \in Species |-> "1"] w == Rates(j, one, T, RLog(T)) IN RLog(w[1]) (-) RLog(w[2])
ReactionEnergy(j, T) == RSum([s \in Species |-> Nu(j, s) (.) ((HOf(s, T) (.) MolarMass[s]) (-) (R0 (.) T))])
ASSUME VantHoff ==
  \A j \in DOMAIN Reactions : \A T \in {"700", "1300", "1800", "2400"} :
   LET d == (LnK(j, T (+) 10, "1") (-) LnK(j, T (-) 10, "1")) (/) 20
   IN RWithin(d (.) (R0 (.) (T (.) T)), ReactionEnergy(j, T), "7e6")
\* reactions with the same reactants and products have the same equilibrium
Net(j) == [s \in Species |-> Nu(j, s)]
ASSUME SameEquilibrium ==
  \A i, j \in DOMAIN Reactions : Net(i) = Net(j) =>
    \A T \in {"700", "1800"} : RWithin(LnK(i, T, "1"), LnK(j, T, "1"), "0.02")
ASSUME ElementsConserved ==
  \A j \in DOMAIN Reactions : \A e \in DOMAIN Elements : Atoms(e, Net(j)) = 0

StartQ == <<1, 1, 0, 2, 0, 0, 3, 0, 0, 0, 0>>
StartT == <<1, 1, 0, 4, 0, 0, 6, 0, 1, 0, 0>>
=============================================================================
