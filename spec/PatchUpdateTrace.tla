-------------------------- MODULE PatchUpdateTrace --------------------------
(* Calls of the real update.  Event: the box, the box of the fluxes, their   *)
(* values, the values of the patch's whole storage before and after.         *)
EXTENDS PatchUpdate, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
B(x) == [lo |-> x[1], up |-> x[2]]
cl(name, ok) == IF ok THEN {} ELSE {<<"C11", name>>}
Fld(x, v) == [lo |-> x[1], up |-> x[2], vals |-> v]
Broken(e) ==
  CASE e.a = "update" ->
       LET box == B(e.box) all == B(e.all) c == CellsOf(all)
           u == Fld(e.box, e.prev) f == Fld(e.fbox, e.flux) IN
       cl("a cell is not changed by the difference of its face fluxes",
          \A j \in DOMAIN c : In(c[j], box) => e.after[j] = NewValue(u, f, e.dir, e.num, e.den, c[j])) \cup
       cl("a cell outside of the patch is changed",
          \A j \in DOMAIN c : (~In(c[j], box)) => e.after[j] = e.before[j]) \cup
       cl("fluxes or previous values are changed", e.inputs) \cup
       cl("the sum over the patch does not change by the fluxes through its sides",
          LET inside == SelectSeq([j \in DOMAIN c |-> <<c[j], e.after[j]>>], LAMBDA x : In(x[1], box)) IN
          SumSeq([j \in DOMAIN inside |-> inside[j][2]]) - SumSeq(e.prev) = Through(box, f, e.dir, e.num, e.den))
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
