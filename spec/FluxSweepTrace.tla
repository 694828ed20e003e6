--------------------------- MODULE FluxSweepTrace ---------------------------
(* Sweeps of the real code over states whose variables name their cell.      *)
EXTENDS FluxSweep, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
B(x) == [lo |-> x[1], up |-> x[2]]
cl(name, ok) == IF ok THEN {} ELSE {<<"C14", name>>}
P == <<17, 101, 577>>
Val(v, i) == ((131 * v + Dot(SubSeq(P, 1, Len(i)), i)) * 7919) % 997
RECURSIVE Sum(_)
Sum(s) == IF Len(s) = 0 THEN 0 ELSE Head(s) + Sum(Tail(s))
\* the stand-in method: variables are 0 density, 1..R momentum, R+1 energy,
\* R+2 pressure, R+3 speed of sound
FaceValue(e, face) ==
  LET s == Stencil(face, e.dir, e.w) R == Len(face)
      W(v, f(_)) == Sum([k \in DOMAIN s |-> f(k) * Val(v, s[k])])
      sq(k) == k * (k + 1)
      id(k) == k IN
  << W(0, sq) + 1000 * e.dt + 10000 * e.dx + 100 * (e.dir - 1) >>
  \o [d \in 1..R |-> W(d, id)]
  \o << W(R + 1, id) + 2 * W(R + 2, id) + 3 * W(R + 3, id) >>
StencilDt(e, s) ==
  LET R == Len(s[1]) IN
  e.dx + 10 * (e.dir - 1) + 100 + (Sum([k \in DOMAIN s |-> k * (Val(0, s[k]) + 5 * Val(R + 2, s[k]))]) % 1009)
Completed(i) == LET R == Len(i) m == Val(R + 1, i) IN
  [v \in 1..(R + 2) |-> Val(v - 1, i)] \o << 2 * m + 3 * Val(0, i), 5 * Val(R, i) + Val(0, i) >>
Broken(e) ==
  CASE e.a = "sweep" -> {}
    [] e.a = "flux" ->
       LET c == CellsOf(B(e.faces)) IN
       cl("a face does not carry the flux of its own stencil",
          Len(e.v) = Len(c) /\ \A j \in DOMAIN c : e.v[j] = FaceValue(e, c[j])) \cup
       cl("memory outside of the faces is changed", e.outside) \cup
       cl("the states are changed", e.inputs)
    [] e.a = "dt" ->
       cl("the stable step is not the least over all stencils",
          e.dt = SweepDt(B(e.cells), e.dir, e.w, LAMBDA s : StencilDt(e, s)))
    [] e.a = "complete" ->
       LET c == CellsOf(B(e.cells)) IN
       cl("a cell is not completed from its own conservative state",
          Len(e.v) = Len(c) /\ \A j \in DOMAIN c : e.v[j] = Completed(c[j])) \cup
       cl("memory outside of the cells is changed", e.outside) \cup
       cl("the conservative states are changed", e.inputs)
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
