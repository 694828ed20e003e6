------------------------------ MODULE Burke2012 ------------------------------
(* The mechanism of Burke, Chaos, Ju, Dryer and Klippenstein (2012) for the   *)
(* combustion of hydrogen: species, their elements, thermodynamic data and    *)
(* reactions, in J, kg, kmol, m, s and K.                                     *)
EXTENDS Num, FiniteSets, TLC
Names == <<"N2", "AR", "H", "O2", "O", "OH", "H2", "H2O", "HE", "HO2", "H2O2">>
NS == 11
Species == 1..NS
\* how many atoms of each element are in a molecule
Elements == [
  N  |-> <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  AR |-> <<0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  H  |-> <<0, 0, 1, 0, 0, 1, 2, 2, 0, 1, 2>>,
  O  |-> <<0, 0, 0, 2, 1, 1, 0, 1, 0, 2, 2>>,
  HE |-> <<0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0>> ]
AtomicMass == [N |-> "14.01", AR |-> "39.948", H |-> "1.008", O |-> "16", HE |-> "4"]
R0 == "8314.462175"     \* the gas constant of the thermodynamic functions
Rk == "8314.34"         \* the gas constant of the rate coefficients
MolarMass == <<"2.80200000e+01", "3.99480000e+01", "1.00800000e+00", "3.20000000e+01", "1.60000000e+01", "1.70080000e+01", "2.01600000e+00", "1.80160000e+01", "4.00000000e+00", "3.30080000e+01", "3.40160000e+01">>
\* R/M and the coefficients of cp/R = a1 + a2 T + ... + a5 T^4, h/R = a1 T + a2 T^2/2 + ... + a6
\* below and above 1000 K; below 300 K the heat capacity is that at 300 K
Low == <<
  <<"2.96733125e+02", "3.29867700e+00", "1.40824000e-03", "-3.96322200e-06", "5.64151500e-09", "-2.44485500e-12", "-1.02090000e+03">>,
  <<"2.08132126e+02", "2.50000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "-7.45375000e+02">>,
  <<"8.24847438e+03", "2.50000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "2.54716300e+04">>,
  <<"2.59826943e+02", "3.21293600e+00", "1.12748600e-03", "-5.75615000e-07", "1.31387700e-09", "-8.76855400e-13", "-1.00524900e+03">>,
  <<"5.19653886e+02", "2.94642900e+00", "-1.63816600e-03", "2.42103200e-06", "-1.60284300e-09", "3.89069600e-13", "2.91476400e+04">>,
  <<"4.88855960e+02", "4.12530561e+00", "-3.22544939e-03", "6.52764691e-06", "-5.79853643e-09", "2.06237379e-12", "3.34630913e+03">>,
  <<"4.12423719e+03", "3.29812400e+00", "8.24944200e-04", "-8.14301500e-07", "-9.47543400e-11", "4.13487200e-13", "-1.01252100e+03">>,
  <<"4.61504339e+02", "3.38684200e+00", "3.47498200e-03", "-6.35469600e-06", "6.96858100e-09", "-2.50658800e-12", "-3.02081100e+04">>,
  <<"2.07861554e+03", "2.50000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "-7.45375000e+02">>,
  <<"2.51892334e+02", "4.30179801e+00", "-4.74912051e-03", "2.11582891e-05", "-2.42763894e-08", "9.29225124e-12", "2.94808040e+02">>,
  <<"2.44427980e+02", "3.38875400e+00", "6.56922600e-03", "-1.48501300e-07", "-4.62580600e-09", "2.47151500e-12", "-1.76631500e+04">> >>
High == <<
  <<"2.96733125e+02", "2.92664000e+00", "1.48797700e-03", "-5.68476100e-07", "1.00970400e-10", "-6.75335100e-15", "-9.22797700e+02">>,
  <<"2.08132126e+02", "2.50000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "-7.45375000e+02">>,
  <<"8.24847438e+03", "2.50000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "2.54716300e+04">>,
  <<"2.59826943e+02", "3.69757800e+00", "6.13519700e-04", "-1.25884200e-07", "1.77528100e-11", "-1.13643500e-15", "-1.23393000e+03">>,
  <<"5.19653886e+02", "2.54206000e+00", "-2.75506200e-05", "-3.10280300e-09", "4.55106700e-12", "-4.36805200e-16", "2.92308000e+04">>,
  <<"4.88855960e+02", "2.86472886e+00", "1.05650448e-03", "-2.59082758e-07", "3.05218674e-11", "-1.33195876e-15", "3.68362875e+03">>,
  <<"4.12423719e+03", "2.99142300e+00", "7.00064400e-04", "-5.63382900e-08", "-9.23157800e-12", "1.58275200e-15", "-8.35034000e+02">>,
  <<"4.61504339e+02", "2.67214600e+00", "3.05629300e-03", "-8.73026000e-07", "1.20099600e-10", "-6.39161800e-15", "-2.98992100e+04">>,
  <<"2.07861554e+03", "2.50000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "0.00000000e+00", "-7.45375000e+02">>,
  <<"2.51892334e+02", "4.01721090e+00", "2.23982013e-03", "-6.33658150e-07", "1.14246370e-10", "-1.07908535e-14", "1.11856713e+02">>,
  <<"2.44427980e+02", "4.57316700e+00", "4.33613600e-03", "-1.47468900e-06", "2.34890400e-10", "-1.43165400e-14", "-1.80069600e+04">> >>
\* what a molecule counts as a third body
Efficiency == [
  M1 |-> <<"1", "0", "1", "1", "1", "1", "2.5", "12", "0", "1", "1">>,
  M2 |-> <<"1", "0", "1", "1", "1", "1", "2.5", "12", "0", "1", "1">>,
  M3 |-> <<"1", "0.75", "1", "1", "1", "1", "2.5", "12", "0.75", "1", "1">>,
  M4 |-> <<"2", "1", "1", "1.5", "1", "1", "3", "0", "1.1", "1", "1">>,
  M5 |-> <<"1", "0.67", "1", "0.78", "1", "1", "2", "14", "0.8", "1", "1">>,
  M6 |-> <<"1.5", "1", "1", "1.2", "1", "1", "3.7", "7.5", "0.65", "1", "7.7">> ]
\* Reactants and products (which exclude a third body m); k = A T^n exp(-E/(R T)) of
\* both directions; those with falloff are given by their limits for low and for high
\* pressures and by the centering of Troe
Reactions == <<
  [l |-> <<3, 4>>, r |-> <<6, 5>>, m |-> "", falloff |-> "", f |-> <<"1.0400000000E+11", "0", "63957000">>, b |-> <<"2.0679845118E+08", "0.434958", "-6605168.02">>],
  [l |-> <<5, 7>>, r |-> <<6, 3>>, m |-> "", falloff |-> "", f |-> <<"3.8180000000E+09", "0", "33254000">>, b |-> <<"2.2393817467E+09", "-0.0350345", "27487825.08">>],
  [l |-> <<5, 7>>, r |-> <<6, 3>>, m |-> "", falloff |-> "", f |-> <<"8.7920000000E+11", "0", "80207000">>, b |-> <<"5.1567952637E+11", "-0.0350345", "74440825.08">>],
  [l |-> <<7, 6>>, r |-> <<3, 8>>, m |-> "", falloff |-> "", f |-> <<"2.1600000000E+05", "1.51", "14351000">>, b |-> <<"2.2182689717E+06", "1.41638", "77060225.89">>],
  [l |-> <<6, 6>>, r |-> <<8, 5>>, m |-> "", falloff |-> "", f |-> <<"3.3400000000E+01", "2.42", "-8075000">>, b |-> <<"5.8480989232E+02", "2.36141", "60400400.81">>],
  [l |-> <<7>>, r |-> <<3, 3>>, m |-> "M1", falloff |-> "", f |-> <<"4.5770000000E+16", "-1.4", "436726000">>, b |-> <<"1.9619373578E+14", "-1.7488", "3646272.681">>],
  [l |-> <<7, 2>>, r |-> <<2, 3, 3>>, m |-> "", falloff |-> "", f |-> <<"5.8400000000E+15", "-1.1", "436726000">>, b |-> <<"2.5033240484E+13", "-1.4488", "3646272.681">>],
  [l |-> <<7, 9>>, r |-> <<9, 3, 3>>, m |-> "", falloff |-> "", f |-> <<"5.8400000000E+15", "-1.1", "436726000">>, b |-> <<"2.5033240484E+13", "-1.4488", "3646272.681">>],
  [l |-> <<5, 5>>, r |-> <<4>>, m |-> "M2", falloff |-> "", f |-> <<"6.1650000000E+09", "-0.5", "0">>, b |-> <<"4.2423561386E+14", "-0.621192", "497875720.4">>],
  [l |-> <<5, 5, 2>>, r |-> <<2, 4>>, m |-> "", falloff |-> "", f |-> <<"1.8860000000E+07", "0", "-7481000">>, b |-> <<"1.2978237919E+12", "-0.121192", "490394720.4">>],
  [l |-> <<5, 5, 9>>, r |-> <<9, 4>>, m |-> "", falloff |-> "", f |-> <<"1.8860000000E+07", "0", "-7481000">>, b |-> <<"1.2978237919E+12", "-0.121192", "490394720.4">>],
  [l |-> <<5, 3>>, r |-> <<6>>, m |-> "M3", falloff |-> "", f |-> <<"4.7140000000E+12", "-1", "0">>, b |-> <<"6.4502650942E+14", "-0.686234", "427313552.4">>],
  [l |-> <<8>>, r |-> <<6, 3>>, m |-> "M4", falloff |-> "", f |-> <<"6.0640000000E+24", "-3.322", "505385000">>, b |-> <<"2.5310630492E+21", "-3.57718", "9596046.787">>],
  [l |-> <<8, 8>>, r |-> <<8, 6, 3>>, m |-> "", falloff |-> "", f |-> <<"1.0060000000E+23", "-2.44", "502833000">>, b |-> <<"4.1989601376E+19", "-2.69518", "7044046.787">>],
  [l |-> <<3, 4>>, r |-> <<10>>, m |-> "", falloff |-> "M5", fc |-> "0.5", f |-> <<"6.3660000000E+14", "-1.72", "2196000">>, f8 |-> <<"4.6510000000E+09", "0.44", "0">>, b |-> <<"9.0292117899E+17", "-1.73291", "206862356.2">>, b8 |-> <<"6.5967427010E+12", "0.427093", "204666356.2">>],
  [l |-> <<10, 3>>, r |-> <<4, 7>>, m |-> "", falloff |-> "", f |-> <<"2.7500000000E+03", "2.09", "-6071000">>, b |-> <<"4.5231945076E+02", "2.45171", "222342371.2">>],
  [l |-> <<10, 3>>, r |-> <<6, 6>>, m |-> "", falloff |-> "", f |-> <<"7.0790000000E+10", "0", "1234000">>, b |-> <<"1.3579714350E+07", "0.761631", "153319028.2">>],
  [l |-> <<10, 5>>, r |-> <<6, 4>>, m |-> "", falloff |-> "", f |-> <<"2.8500000000E+07", "1", "-3029000">>, b |-> <<"2.7494741434E+06", "1.32667", "219618196.2">>],
  [l |-> <<10, 6>>, r |-> <<4, 8>>, m |-> "", falloff |-> "", f |-> <<"2.8900000000E+10", "0", "-2079000">>, b |-> <<"4.8816975193E+10", "0.268083", "289043597.1">>],
  [l |-> <<10, 10>>, r |-> <<4, 11>>, m |-> "", falloff |-> "", f |-> <<"4.2000000000E+11", "0", "50133000">>, b |-> <<"6.3574616360E+13", "-0.389273", "212211053.7">>],
  [l |-> <<10, 10>>, r |-> <<4, 11>>, m |-> "", falloff |-> "", f |-> <<"1.3000000000E+08", "0", "-6817000">>, b |-> <<"1.9677857445E+10", "-0.389273", "155261053.7">>],
  [l |-> <<11>>, r |-> <<6, 6>>, m |-> "", falloff |-> "M6", fc |-> "0.43", f |-> <<"2.4900000000E+21", "-2.3", "203970000">>, f8 |-> <<"2.0000000000E+12", "0.9", "203966000">>, b |-> <<"2.2248483092E+12", "-1.13619", "-10689381.66">>, b8 |-> <<"1.7870267543E+03", "2.06381", "-10693381.66">>],
  [l |-> <<11, 3>>, r |-> <<6, 8>>, m |-> "", falloff |-> "", f |-> <<"2.4100000000E+10", "0", "16610000">>, b |-> <<"5.1591045676E+04", "1.41899", "297739571.6">>],
  [l |-> <<11, 3>>, r |-> <<7, 10>>, m |-> "", falloff |-> "", f |-> <<"4.8200000000E+10", "0", "33263000">>, b |-> <<"5.2375134409E+07", "0.75098", "99598317.44">>],
  [l |-> <<11, 5>>, r |-> <<10, 6>>, m |-> "", falloff |-> "", f |-> <<"9.5500000000E+03", "2", "16610000">>, b |-> <<"6.0865850326E+00", "2.71595", "77179142.52">>],
  [l |-> <<11, 6>>, r |-> <<8, 10>>, m |-> "", falloff |-> "", f |-> <<"1.7400000000E+09", "0", "1331000">>, b |-> <<"1.9417254097E+07", "0.657356", "130375543.3">>],
  [l |-> <<11, 6>>, r |-> <<8, 10>>, m |-> "", falloff |-> "", f |-> <<"7.5900000000E+10", "0", "30418000">>, b |-> <<"8.4699401492E+08", "0.657356", "159462543.3">>] >>
(* Thermodynamic functions of a species *)
Poly5(a, T) == a[2] (+) (T (.) (a[3] (+) (T (.) (a[4] (+) (T (.) (a[5] (+) (T (.) a[6])))))))
Cp0(a, T) == a[1] (.) Poly5(a, T)
H0(a, T) == a[1] (.) ((T (.) (a[2] (+) (T (.) ((a[3] (/) 2) (+) (T (.) ((a[4] (/) 3) (+) (T (.) ((a[5] (/) 4) (+) (T (.) (a[6] (/) 5)))))))))) (+) a[7])
T300 == "300"
CpOf(s, T) == IF RLess("1000", T) THEN Cp0(High[s], T) ELSE Cp0(Low[s], RMax(T, T300))
HOf(s, T) == IF RLess("1000", T) THEN H0(High[s], T)
             ELSE IF RLess(T, T300) THEN H0(Low[s], T300) (+) ((T (-) T300) (.) Cp0(Low[s], T300))
             ELSE H0(Low[s], T)

(* Kinetics: rates of all reactions for concentrations c (kmol/m^3) *)
Count(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})
Nu(j, s) == Count(Reactions[j].r, s) - Count(Reactions[j].l, s)
RProd(seq) == LET f[i \in 0..Len(seq)] == IF i = 0 THEN "1" ELSE f[i - 1] (.) seq[i] IN f[Len(seq)]
Arrhenius(k, T, lnT) == k[1] (.) RExp((k[2] (.) lnT) (-) (k[3] (/) (Rk (.) T)))
ThirdBody(m, c) == LET e == Efficiency[m] IN RSum([s \in Species |-> e[s] (.) c[s]])
Log10(x) == RLog(x) (/) "2.302585092994045684"
Falloff(k0, k8, fc, M) ==
  LET pr == (k0 (.) M) (/) k8
      lf == Log10(fc)
      x == Log10(pr) (+) ("-0.4" (-) ("0.67" (.) lf))
      y == ("0.75" (-) ("1.27" (.) lf)) (-) ("0.14" (.) x)
      F == RPow(fc, "1" (/) ("1" (+) RSq(x (/) y)))
  IN k8 (.) (F (.) (pr (/) ("1" (+) pr)))
\* <<forward, backward>>, c without negative numbers
Rates(j, c, T, lnT) ==
  LET x == Reactions[j]
      M == IF x.falloff # "" THEN ThirdBody(x.falloff, c) ELSE IF x.m # "" THEN ThirdBody(x.m, c) ELSE "1"
      k(a, a8) == IF x.falloff # "" THEN Falloff(Arrhenius(a, T, lnT), Arrhenius(a8, T, lnT), x.fc, M) ELSE Arrhenius(a, T, lnT) (.) M
      conc(side) == RProd([i \in DOMAIN side |-> c[side[i]]])
      k8f == IF x.falloff # "" THEN x.f8 ELSE x.f  k8b == IF x.falloff # "" THEN x.b8 ELSE x.b
  IN <<k(x.f, k8f) (.) conc(x.l), k(x.b, k8b) (.) conc(x.r)>>
AllRates(c, T) == LET lnT == RLog(T) IN TLCEval([j \in DOMAIN Reactions |-> Rates(j, c, T, lnT)])
\* kmol/(m^3 s) of a species for given rates
Production(w, s) == RSum([j \in DOMAIN Reactions |-> Nu(j, s) (.) (w[j][1] (-) w[j][2])])
\* all that is made and used, the scale of the round off
Turnover(w, s) == RSum([j \in DOMAIN Reactions |-> (Count(Reactions[j].r, s) + Count(Reactions[j].l, s)) (.) (w[j][1] (+) w[j][2])])
ElementSum(e, x) == LET a == Elements[e] IN RSum([s \in Species |-> a[s] (.) x[s]])
=============================================================================
