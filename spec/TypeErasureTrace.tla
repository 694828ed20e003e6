-------------------------- MODULE TypeErasureTrace --------------------------
(* Histories of the real wrappers around probes that note their creation,   *)
(* their end and every call.                                                 *)
EXTENDS TypeErasure, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES tid, l, slots, data, bad
vars == <<tid, l, slots, data, bad>>
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
Silent == {<<x[1], x[2]>> : x \in {Cfg.silent[i] : i \in DOMAIN Cfg.silent}}
Ref == Cfg.kind = "ref"
cl(name, ok) == IF ok THEN {} ELSE {<<"C17", name>>}
Live(e) == {e.live[i] : i \in DOMAIN e.live}
\* the only object that was not alive before
Fresh(e) == LET new == Live(e) \ Objs(slots) IN IF Cardinality(new) = 1 THEN CHOOSE o \in new : TRUE ELSE 0
After(e) ==
  CASE e.a = "wrap" -> Wrap(slots, e.d, e.t, e.id, e.n, IF Ref THEN e.obj ELSE Fresh(e))
    [] e.a = "copy" -> Copy(slots, e.d, e.s, IF Ref THEN slots[e.s].obj ELSE Fresh(e))
    [] e.a = "move" -> Move(slots, e.d, e.s)
    [] e.a = "swap" -> Swap(slots, e.d, e.s)
    [] e.a = "clear" -> Clear(slots, e.d)
    [] e.a = "call" -> LET after == Call(slots, e.s, e.m, Silent) IN
         IF Ref THEN [x \in DOMAIN slots |-> IF slots[x].obj = slots[e.s].obj THEN [slots[x] EXCEPT !.n = after[e.s].n] ELSE slots[x]]
         ELSE after
    [] e.a = "cast" -> Poke(slots, e.s, e.t, e.k)
    [] OTHER -> slots
Broken(e) ==
  CASE e.a = "next" -> {}
    [] e.a = "call" ->
       LET want == Reached(slots, e.s, e.m, e.args, Silent) IN
       cl("a call reaches an object although there is none for it", want = <<>> => e.calls = <<>>) \cup
       cl("a call does not reach the object of the wrapper exactly once, with its arguments", want # <<>> => e.calls = want) \cup
       cl("the answer is not that of the object", e.ret # -1 => e.ret = Answer(slots[e.s])) \cup
       cl("the data given are not the data of the caller", e.touched = data[e.on] + Len(want))
    [] e.a = "cast" ->
       cl("a cast succeeds for a wrong type or fails for the right one", e.found = CastTo(slots, e.s, e.t)) \cup
       cl("a cast does not give the object of the wrapper", e.found /\ CastTo(slots, e.s, e.t) =>
            e.obj = slots[e.s].obj /\ e.id = slots[e.s].id /\ e.n = slots[e.s].n)
    [] e.a = "wrap" -> cl("wrapping changes the original", e.srcid = e.id)
    [] e.a = "fail" -> cl("the failure of a copy is hidden", ~ IsEmpty(slots[e.s]) => e.threw)
    [] e.a \in {"copy", "move", "swap", "clear"} -> {}
    [] OTHER -> cl("crash, hang or exception: " \o e.a, FALSE)
Owns(e) ==
  IF e.a \in {"wrap", "copy", "move", "swap", "clear", "call", "cast", "fail"} /\ ~ Ref
  THEN cl("objects are leaked, lost, shared or created without need after: " \o e.a, Live(e) = Objs(After(e)) /\ Exclusive(After(e)) /\ 0 \notin Objs(After(e)))
  ELSE {}
Init == /\ tid \in DOMAIN Traces /\ l = 1 /\ bad = {} /\ slots = [s \in 1..Cfg.slots |-> Empty]
        /\ data = [i \in 1..Cfg.data |-> 0]
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ bad' = bad \cup Broken(Ev[l]) \cup Owns(Ev[l]) /\ slots' = After(Ev[l])
        /\ data' = IF Ev[l].a = "call" THEN [data EXCEPT ![Ev[l].on] = @ + Len(Reached(slots, Ev[l].s, Ev[l].m, Ev[l].args, Silent))] ELSE data
Spec == Init /\ [][Next]_vars
Conforms == \A c \in bad : c[1] # Prop
=============================================================================
