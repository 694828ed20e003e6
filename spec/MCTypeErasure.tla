--------------------------- MODULE MCTypeErasure ---------------------------
(* All histories of a few wrappers on a heap of objects: the wrapper is a    *)
(* pointer, copies clone what it points to, moves hand the pointer on.  The  *)
(* heap refines the values of TypeErasure; no object is owned twice, leaked  *)
(* or used after its end.                                                    *)
EXTENDS TypeErasure, TLC
CONSTANTS NSlots, NObj, MaxCalls
VARIABLES ptr, heap, slots, last
vars == <<ptr, heap, slots, last>>
Slots == 1..NSlots
Types == {"A", "B"}
Nil == 0
Free == {o \in 1..NObj : heap[o].t = "none"}
New == CHOOSE o \in Free : \A p \in Free : o <= p
Dead == [t |-> "none", id |-> 0, n |-> 0]
Drop(h, o) == IF o = Nil THEN h ELSE [h EXCEPT ![o] = Dead]
Init == ptr = [s \in Slots |-> Nil] /\ heap = [o \in 1..NObj |-> Dead] /\ slots = [s \in Slots |-> Empty] /\ last = {}
DoWrap(d, t) == LET o == New IN
  /\ Free # {}
  /\ heap' = Drop([heap EXCEPT ![o] = [t |-> t, id |-> d, n |-> 0]], ptr[d])
  /\ ptr' = [ptr EXCEPT ![d] = o] /\ slots' = Wrap(slots, d, t, d, 0, o) /\ last' = {d}
DoCopy(d, s) == LET o == IF ptr[s] = Nil THEN Nil ELSE New IN
  /\ ptr[s] = Nil \/ Free # {}
  /\ heap' = Drop(IF o = Nil THEN heap ELSE [heap EXCEPT ![o] = heap[ptr[s]]], ptr[d])
  /\ ptr' = [ptr EXCEPT ![d] = o] /\ slots' = Copy(slots, d, s, o) /\ last' = {d}
\* the copy of the object fails: it is made before anything is given up
FailedCopy(d, s) == ptr[s] # Nil /\ last' = {} /\ UNCHANGED <<ptr, heap, slots>>
DoMove(d, s) == d # s /\ heap' = Drop(heap, ptr[d]) /\ ptr' = [ptr EXCEPT ![d] = ptr[s], ![s] = Nil]
  /\ slots' = Move(slots, d, s) /\ last' = {d, s}
DoSwap(d, s) == d # s /\ UNCHANGED heap /\ ptr' = [ptr EXCEPT ![d] = ptr[s], ![s] = ptr[d]]
  /\ slots' = Swap(slots, d, s) /\ last' = {d, s}
DoClear(d) == heap' = Drop(heap, ptr[d]) /\ ptr' = [ptr EXCEPT ![d] = Nil] /\ slots' = Clear(slots, d) /\ last' = {d}
DoCall(s) == /\ (ptr[s] # Nil => heap[ptr[s]].n < MaxCalls)
  /\ heap' = (IF ptr[s] = Nil THEN heap ELSE [heap EXCEPT ![ptr[s]].n = @ + 1]) /\ UNCHANGED ptr
  /\ slots' = Call(slots, s, "m", {}) /\ last' = {s}
Next == \E d \in Slots : \/ DoClear(d) \/ DoCall(d) \/ (\E t \in Types : DoWrap(d, t))
                         \/ (\E s \in Slots : DoCopy(d, s) \/ DoMove(d, s) \/ DoSwap(d, s) \/ FailedCopy(d, s))
Spec == Init /\ [][Next]_vars
Value(s) == IF ptr[s] = Nil THEN Empty ELSE [t |-> heap[ptr[s]].t, obj |-> ptr[s], id |-> heap[ptr[s]].id, n |-> heap[ptr[s]].n]
Refines == \A s \in Slots : Value(s) = slots[s]
NoLeak == {o \in 1..NObj : heap[o].t # "none"} = Objs(slots)
Owned == Exclusive(slots)
\* an operation changes no wrapper that it does not name
Independent == [][\A s \in Slots : s \notin last' => slots'[s] = slots[s]]_vars
\* copies are equal to their originals and keep equal answers
CopiesAgree == \A a, b \in Slots : slots[a] = slots[b] => Answer(slots[a]) = Answer(slots[b])
=============================================================================
