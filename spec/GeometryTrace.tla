---------------------------- MODULE GeometryTrace ----------------------------
(* Values of the real geometries and points read from files.                 *)
EXTENDS Geometry, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
cl(name, ok) == IF ok THEN {} ELSE {<<"C22", name>>}
Tol(e) == "1e-12" (.) (e.scale)
Broken(e) ==
  CASE e.a = "next" -> {}
    [] e.a = "value" ->
       cl("the value of the geometry is not its signed distance: " \o Cfg.g.k, RWithin(e.v, Value(Cfg.g, e.x), Tol(e)))
    [] e.a = "read" -> cl("the points read are not the points in the file", e.got = e.want)
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
