------------------------ MODULE StateTransferTrace -------------------------
(* Loads, stores, rows, buffers and parts of views of the real state types.  *)
EXTENDS StateTransfer, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, mem, lo, ext, bad
vars == <<tid, l, mem, lo, ext, bad>>
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
L == Cfg.vars
Org == Cfg.lo
Set(s) == {s[j] : j \in DOMAIN s}
Ns(k) == IF k = "cons" THEN Set(Cfg.cons) ELSE DOMAIN L
cl(name, ok) == IF ok THEN {} ELSE {<<"C13", name>>}
Fn(r) == [v \in DOMAIN r |-> r[v]]
Untouched(e) == cl("memory is changed by " \o e.a, Len(e.w) = 0)
OrderOf(k) == IF k = "cons" THEN Cfg.names.cons ELSE Cfg.names.complete
\* value of the component of that name in a single state
Named(val, nm) == val[nm[1]][IF nm[2] < 0 THEN 1 ELSE nm[2] + 1][1]
Broken(e) ==
  CASE e.a = "load" ->
       Untouched(e) \cup
       cl("a loaded state is not the contents of its cells", Fn(e.v) = Read(mem, L, Ns(e.k), Org, e.i, e.n))
    [] e.a = "store" ->
       cl("storing a state does not write exactly its components into its cells",
          Set(e.w) = Writes(L, Ns(e.k), Org, e.i, e.n, e.v))
    [] e.a = "rows" ->
       Untouched(e) \cup
       cl("rows are not those of the view, once each",
          /\ Len(e.rows) = Cardinality(RowStarts(lo, ext))
          /\ {Fn(e.rows[j].p) : j \in DOMAIN e.rows} =
               {[v \in Ns(e.k) |-> [c \in 1..L[v].d |-> Addr(L[v], Org, i, c, 0)]] : i \in RowStarts(lo, ext)}) \cup
       cl("a row has not the length of the view", \A j \in DOMAIN e.rows : e.rows[j].len = ext[1]) \cup
       cl("rows of two views do not correspond", \A j \in DOMAIN e.rows : e.rows[j].same)
    [] e.a = "lane" ->
       Untouched(e) \cup
       cl("a state taken from an array of states is not that of its lane",
          \A v \in Ns(e.k) : \A c \in 1..L[v].d : e.v[v][c][1] = e.in[v][c][e.i + 1])
    [] e.a = "frombuffer" ->
       cl("a state does not receive the components of the buffer in the order of their names",
          LET o == OrderOf(e.k) IN Len(o) = Len(e.in) /\ \A j \in DOMAIN o : e.in[j] = Named(e.v, o[j]))
    [] e.a = "tobuffer" ->
       cl("a buffer does not receive the components of the state in the order of their names",
          LET o == OrderOf(e.k) IN
          /\ \A j \in DOMAIN o : e.out[j] = Named(e.in, o[j])
          /\ \A j \in (Len(o) + 1)..Len(e.out) : e.out[j] = -7)
    [] e.a = "components" ->
       cl("components of two kinds of states do not correspond",
          /\ Len(e.seen) = Cardinality(Comps(L, Ns(e.k)))
          /\ Set(e.seen) = {<<e.in[vc[1]][vc[2]][1], Addr(L[vc[1]], Org, lo, vc[2], 0)>> : vc \in Comps(L, Ns(e.k))})
    [] e.a = "zero" ->
       cl("a new state is not zero in all its components",
          \A v \in Ns(e.k) : Len(e.v[v]) = L[v].d /\ \A c \in 1..L[v].d : \A x \in DOMAIN e.v[v][c] : e.v[v][c][x] = 0)
    [] e.a = "plus" ->
       cl("the sum of two states is not the sum of their components",
          \A v \in Ns(e.k) : \A c \in 1..L[v].d : e.v[v][c][1] = e.x[v][c][1] + e.y[v][c][1])
    [] e.a = "names" ->
       cl("names of components are not distinct, complete and in order", Names(L, Ns(e.k), OrderOf(e.k))) \cup
       (IF e.k = "complete" THEN
          cl("the number of components is wrong", e.count = Cardinality(Comps(L, Ns(e.k)))) \cup
          cl("the index of a component is not its place among the names",
             \A v \in Ns(e.k) : Len(e.ids[v]) = L[v].d /\ \A c \in 1..L[v].d : e.ids[v][c] = Position(L, OrderOf(e.k), <<v, c>>) - 1) \cup
          cl("a component got by number is not that of its name",
             \A j \in DOMAIN OrderOf(e.k) : e.gets[j] = Named(e.in, OrderOf(e.k)[j]))
        ELSE {})
    [] e.a = "nan" -> cl("a state's being not a number is not reported, or reported wrongly", e.r = e.has)
    [] e.a = "narrow" ->
       cl("the part of a view is not that of the requested box",
          Inside(lo, ext, e.lo, e.ext) /\ e.blo = e.lo /\ \A k \in DOMAIN e.lo : e.bup[k] = e.lo[k] + e.ext[k])
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Init == tid \in DOMAIN Traces /\ l = 1 /\ bad = {} /\ mem = <<>> /\ lo = Cfg.lo /\ ext = Cfg.ext
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ bad' = bad \cup Broken(Ev[l])
        /\ mem' = IF Ev[l].a = "store" THEN Apply(mem, Set(Ev[l].w)) ELSE mem
        /\ lo' = IF Ev[l].a = "narrow" THEN Ev[l].lo ELSE lo
        /\ ext' = IF Ev[l].a = "narrow" THEN Ev[l].ext ELSE ext
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
