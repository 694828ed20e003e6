---------------------------- MODULE TypeErasure ----------------------------
(* Wrappers with value semantics around objects of any type.  A slot is      *)
(* empty or owns one object, which has a type, an identity given at its      *)
(* creation, a payload and the number of calls that it has seen.  The        *)
(* handles (kind "ref") refer to an object of somebody else instead.         *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [t |-> "none", obj |-> 0, id |-> 0, n |-> 0]
IsEmpty(v) == v.t = "none"
Objs(slots) == {slots[s].obj : s \in {x \in DOMAIN slots : ~ IsEmpty(slots[x])}}
\* wraps a copy of an object
Wrap(slots, d, t, id, n, obj) == [slots EXCEPT ![d] = [t |-> t, obj |-> obj, id |-> id, n |-> n]]
\* the copy is an object of its own, equal to the original
Copy(slots, d, s, obj) ==
  [slots EXCEPT ![d] = IF IsEmpty(slots[s]) THEN Empty ELSE [slots[s] EXCEPT !.obj = obj]]
\* the object itself changes its owner, nothing is created
Move(slots, d, s) == [[slots EXCEPT ![d] = slots[s]] EXCEPT ![s] = Empty]
Swap(slots, d, s) == [slots EXCEPT ![d] = slots[s], ![s] = slots[d]]
Clear(slots, d) == [slots EXCEPT ![d] = Empty]
\* a call reaches exactly the object in the slot, with the arguments given
Reached(slots, s, method, args, silent) ==
  LET v == slots[s] IN
  IF IsEmpty(v) \/ <<v.t, method>> \in silent THEN <<>>
  ELSE <<[t |-> v.t, obj |-> v.obj, id |-> v.id, n |-> v.n + 1, m |-> method, args |-> args]>>
Call(slots, s, method, silent) ==
  LET v == slots[s] IN
  IF IsEmpty(v) \/ <<v.t, method>> \in silent THEN slots ELSE [slots EXCEPT ![s].n = @ + 1]
\* what the object answers
Answer(v) == 1000 * v.id + v.n + 1
\* a cast succeeds for the exact type only and gives the object itself
CastTo(slots, s, t) == slots[s].t = t
Poke(slots, s, t, k) == IF CastTo(slots, s, t) THEN [slots EXCEPT ![s].n = @ + k] ELSE slots

Exclusive(slots) == \A a, b \in DOMAIN slots :
  a # b /\ ~ IsEmpty(slots[a]) /\ ~ IsEmpty(slots[b]) => slots[a].obj # slots[b].obj
=============================================================================
