----------------------------- MODULE LawsTrace ------------------------------
(* Results of the real equations against the formulas of module Laws.        *)
EXTENDS Laws, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
L == Traces[tid].cfg
Tol == "1e-11"
cl(name, ok) == IF ok THEN {} ELSE {<<"C18", name>>}
Zeros(q) == \A i \in DOMAIN q : REq(q[i], "0")
Rows(n, m) == [i \in 1..n |-> SubSeq(m, (i - 1) * n + 1, i * n)]

\* a complete state r agrees with the conservative variables c
CompleteOk(c, r) ==
  /\ Len(r) = NQ(L)
  /\ \A i \in DOMAIN c : REq(r[i], c[i])
  /\ RClose(Pr(L, r), PressureOf(L, c), Tol, RMul(L.gamma, c[L.n + 2]))
  /\ RClose(RSq(Snd(L, r)), Snd2(L, r[1], Pr(L, r)), Tol, "0")
  /\ RLess("0", Snd(L, r))
FromPrimOk(w, r) == Close(r, FromPrim(L, w), FromPrim(L, AbsV(w)), Tol)
ToPrimOk(q, r) == Close(r, ToPrim(L, q), AbsV(r), Tol)
\* a state at pressure p whose velocity along the first axis has the square u2 (with sign)
AtPressureOk(q, p, rho, u2, scale, r) ==
  LET ux == r[2] (/) r[1] IN
  /\ Len(r) = NQ(L)
  /\ RClose(r[1], rho, Tol, "0")
  /\ \A d \in 2..L.n : REq(r[1 + d], "0")
  /\ RWithin(RMul(ux, RAbs(ux)), u2, RMul("1e-10", scale))
  /\ RClose(r[L.n + 2], RDiv(p, RSub(L.gamma, 1)) (+) RMul(RDiv(rho, 2), RAbs(u2)), "1e-10", RMul(rho, scale))
  /\ \A i \in 1..(L.ns + L.np) : RClose(r[L.n + 2 + i], Mixture(L, q, rho)[i], Tol, "0")
  /\ RClose(Pr(L, r), p, Tol, "0")
  /\ RClose(RSq(Snd(L, r)), Snd2(L, rho, p), "1e-10", "0") /\ RLess("0", Snd(L, r))
SpeedScale(q, p) ==
  Norm2(Vel(L, q)) (+) RMul(RMul(4, CpOverR(L)), RMax(Pr(L, q) (/) q[1], p (/) IsentropicDensity(L, q, p)))
SignedSq(x) == RMul(x, RAbs(x))

Broken(e) ==
  CASE e.a = "flux" ->
       IF e.on THEN cl("a flux differs from the law's formula", Close(e.r, Flux(L, e.q, e.d), FluxScale(L, e.q, e.d), Tol)) ELSE {}
    [] e.a = "complete" ->
       IF e.on THEN cl("a completed state is not the one of the conserved variables", CompleteOk(e.q, e.r))
       ELSE cl("a masked cell is not emptied", Zeros(e.r))
    [] e.a = "from prim" ->
       IF e.on THEN cl("a state is not the one of its primitive variables", FromPrimOk(e.q, e.r))
       ELSE cl("a masked cell is not emptied", Zeros(e.r))
    [] e.a = "to prim" -> cl("primitive variables are not those of the state", ToPrimOk(e.q, e.r))
    [] e.a = "derived" ->
       LET u == SubSeq(e.r, 1, L.n) IN
       cl("velocity, temperature or Mach number of a state",
          /\ Close(u, Vel(L, e.q), AbsV(u), Tol)
          /\ RClose(e.r[L.n + 1], TemperatureOf(L, e.q[1], Pr(L, e.q)), Tol, "0")
          /\ Len(e.r) = L.n + 2 => RClose(RSq(e.r[L.n + 2] (.) Snd(L, e.q)), Norm2(Vel(L, e.q)), Tol, "0") /\ RLeq("0", e.r[L.n + 2]))
    [] e.a = "accessors" ->
       LET x == <<L.gamma, e.q[1]>> \o Mom(L, e.q) \o Vel(L, e.q) \o <<e.q[L.n + 2], Pr(L, e.q), Snd(L, e.q)>> IN
       cl("a property of a state is read wrongly", Close(e.r, x, AbsV(x), Tol))
    [] e.a = "species" ->
       LET x == SubSeq(e.q, L.n + 3, L.n + 2 + L.ns) IN
       cl("a property of a state is read wrongly", Close(e.r, x, AbsV(x), Tol))
    [] e.a = "energies" ->
       LET rho == e.q[1] E == e.q[L.n + 2] p == Pr(L, e.q) IN
       cl("internal energy, enthalpy or temperature of a state",
          Close(e.r, <<(E (-) RMul(L.msq, Kin(rho, Mom(L, e.q)))) (/) rho, (E (+) p) (/) rho, p (/) rho>>,
                <<E (/) rho, E (/) rho, "0">>, Tol))
    [] e.a = "constants" ->
       LET g == L.gamma h == RSub(L.gamma, 1) IN
       cl("the constants of a gas do not belong to one gamma",
          Close(e.r, <<g, RDiv(1, g), h, RDiv(h, g), RDiv(1, h), RDiv(g, h), g, RDiv(1, h), RDiv(g, h), RDiv(1, h), "1">>,
                [i \in 1..11 |-> "1"], Tol))
    [] e.a = "reflect" ->
       cl("a reflection is wrong", Close(e.r, ReflectState(e.q, L.n, e.x), VectorScale(e.q, L.n), Tol))
    [] e.a = "rotate" ->
       cl("a rotation is wrong", Close(e.r, RotateState(e.q, L.n, Rows(L.n, e.x)), VectorScale(e.q, L.n), Tol))
    [] e.a = "same" ->
       cl("a state should come out as it was: " \o e.f,
          Close(e.r, e.q, IF L.law = "adv" \/ L.law = "bur" THEN AbsV(e.q) ELSE VectorScale(e.q, L.n), Tol))
    [] e.a = "from kinetic" ->
       LET k == FromKinetic(L, e.q, e.x) IN
       cl("a state is not the one of its kinetic variables", Close(e.r, k, [i \in DOMAIN k |-> IF i = L.n + 2 THEN k[i] ELSE RAbs(k[i])], Tol))
    [] e.a = "to kinetic" ->
       LET k == ToKinetic(L, e.q) IN
       cl("kinetic variables are not those of the state", Close(e.r, k, [i \in DOMAIN k |-> "1"], Tol))
    [] e.a = "kinetic pressure" -> cl("the pressure of a kinetic state", RClose(e.r[1], e.q[1] (.) e.q[2], Tol, "0"))
    [] e.a = "velocity" ->
       LET s == WithVelocity(L, e.q, e.x) IN
       cl("a new velocity changes more than the motion", Close(e.r, s, [i \in DOMAIN s |-> IF i = L.n + 2 THEN RAbs(e.q[i]) (+) RAbs(s[i]) ELSE RAbs(s[i])], Tol))
    [] e.a = "isentropic" ->
       cl("an isentropic change of the pressure",
          AtPressureOk(e.q, e.x[1], IsentropicDensity(L, e.q, e.x[1]), IsentropicU2(L, e.q, e.x[1]), SpeedScale(e.q, e.x[1]), e.r))
    [] e.a = "expansion" ->
       LET h == ExpansionDrop(L, e.q, e.x[1]) s == SpeedScale(e.q, e.x[1])
           v2 == SignedSq(ExpansionU(L, e.q, e.x[1], e.x[2])) rho == IsentropicDensity(L, e.q, e.x[1])
           \* the direction is open if the pressure does not change
           u2 == IF RWithin(h, "0", RMul("1e-12", s)) /\ RLess(e.r[2], "0") THEN RNeg(RAbs(v2)) ELSE IF RWithin(h, "0", RMul("1e-12", s)) THEN RAbs(v2) ELSE v2 IN
       cl("an expansion to a given pressure", AtPressureOk(e.q, e.x[1], rho, u2, s, e.r))
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
