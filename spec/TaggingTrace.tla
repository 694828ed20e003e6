---------------------------- MODULE TaggingTrace ----------------------------
(* Tags placed by the real methods, over the whole memory around the tags.   *)
EXTENDS Tagging, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Ev == Traces[tid].ev
B(x) == [lo |-> x[1], up |-> x[2]]
cl(name, ok) == IF ok THEN {} ELSE {<<"C16", name>>}
RECURSIVE Prod(_, _)
Prod(e, k) == IF k = 0 THEN 1 ELSE e[k] * Prod(e, k - 1)
PosIn(b, i) == 1 + Dot(Minus(i, b.lo), LeftStrides(Extents(b)))
Set(vals, all, box) == {i \in CellSet(box) : vals[PosIn(all, i)] # 0}
Kept(e) == \A j \in DOMAIN e.before : e.before[j] # 0 => e.after[j] # 0
Outside(e) == LET all == B(e.all) box == B(e.box) c == CellsOf(all) IN
  \A j \in DOMAIN c : (~In(c[j], box)) => e.after[j] = e.before[j]
\* neighbours with both sides known, in direction d
Triples(e, i) ==
  LET cells == B(e.cells)
      ok(d) == /\ In(Shifted(i, d, -1), cells) /\ In(Shifted(i, d, 1), cells)
               /\ e.vols => \A n \in -1..1 : e.v[PosIn(cells, Shifted(i, d, n))] > 0 IN
  {d \in DOMAIN i : ok(d)}
Some(e, i, rel(_, _, _)) ==
  LET cells == B(e.cells) at(q, j) == q[PosIn(cells, j)] IN
  \E d \in Triples(e, i) : \E s \in {-1, 1} :
    \/ rel(at(e.rho, i), at(e.rho, Shifted(i, d, s)), e.t1)
    \/ rel(at(e.p, i), at(e.p, Shifted(i, d, s)), e.t2)
Broken(e) ==
  CASE e.a = "next" -> {}
    [] e.a = "buffer" ->
       LET all == B(e.all) box == B(e.box) IN
       cl("the buffer is not the neighbourhood of the tags", Set(e.after, all, box) = Buffered(Set(e.before, all, box), box, e.w)) \cup
       cl("a tag is taken away", Kept(e)) \cup
       cl("memory outside of the tags is changed", Outside(e))
    [] e.a = "cut" ->
       LET all == B(e.all) box == B(e.box) vall == B(e.vall) vbox == B(e.vbox)
           cut == {i \in CellSet(Intersection(box, vbox)) : e.vols[PosIn(vall, i)] \in 1..3} IN
       cl("the tagged cells are not the cut cells", Set(e.after, all, box) = Set(e.before, all, box) \cup cut) \cup
       cl("memory outside of the tags is changed", Outside(e))
    [] e.a = "gradient" ->
       LET all == B(e.all) box == B(e.box) was == Set(e.before, all, box) is == Set(e.after, all, box) IN
       cl("a cell that differs from its neighbours is not tagged", \A i \in CellSet(box) : Some(e, i, Exceeds) => i \in is) \cup
       cl("a cell that does not differ from its neighbours is tagged", \A i \in is : i \in was \/ Some(e, i, Reaches)) \cup
       cl("a tag is taken away", Kept(e)) \cup
       cl("memory outside of the tags is changed", Outside(e))
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
